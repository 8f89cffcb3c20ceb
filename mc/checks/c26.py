"""C26: results are labelled, counted and reduced for the state they belong to."""
from __future__ import annotations

import itertools

import numpy as np

from mc import ref
from mc.comp import full_perm
from mc.core import require

PROPERTY = "C26"
RULE = ("every register shape (dimensions 2..12 on 1..3 lines), every list of outcomes up to a length, every placement and every subset of kept "
        "lines: histogram bars, counts, density matrix and partial trace against a reference")
BOUNDS = {"quick": "shapes of up to 24 states, outcome lists of up to 4; all subsets of up to 4 lines; all placements up to dimension 3 on 2 lines",
          "thorough": "shapes of up to 144 states, outcome lists of up to 6"}
ASSUMPTIONS = ["the bars drawn are read from matplotlib.pyplot.bar"]

SMALL = [[2], [3], [2, 2], [2, 3], [3, 2], [4], [5]]
SHAPES = [[2], [3], [2, 3], [3, 2], [2, 2, 2], [4, 3], [10], [11], [12], [11, 2], [2, 11], [2, 12]]
MORE = [[2, 3, 4], [11, 11], [12, 12], [2, 2, 11], [3, 11, 2], [13, 3]]


def cases(tier, seed):
    deep = tier == "thorough"
    for dims in SHAPES + (MORE if deep else []):
        yield {"kind": "labels", "dims": dims}
    for dims in SMALL:
        n = int(np.prod(dims))
        for k in range(1, (6 if deep else 4) + 1):
            if n ** k <= (5000 if deep else 260):
                yield {"kind": "counts", "dims": dims, "len": k}
    for dims in [[2, 2], [3], [2, 3], [3, 2]] + ([[3, 3], [2, 2, 2], [4, 2]] if deep else [[2, 2, 2]]):
        yield {"kind": "placed", "dims": dims}
    for dims in [[2, 2], [2, 3], [3, 2, 2], [2, 3, 4], [2, 3, 2, 2]] + ([[3, 4, 2, 3], [2, 2, 2, 2, 2]] if deep else []):
        yield {"kind": "trace", "dims": dims}


def check(case, rec):
    import io
    from contextlib import redirect_stdout

    with redirect_stdout(io.StringIO()):
        globals()["check_" + case["kind"]](case, rec)


class Bars:
    """What a histogram shows: the height drawn at each position of the axis, and the label of that position."""

    def __enter__(self):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        self.plt, self.keep = plt, (plt.bar, plt.show, plt.tight_layout)
        self.bars = []

        def bar(x, height, *a, **k):  # noqa: ARG001
            self.bars.append((list(x), [float(h) for h in height]))

        plt.bar, plt.show, plt.tight_layout = bar, (lambda *a, **k: None), (lambda *a, **k: None)
        return self

    def __exit__(self, *a):
        self.plt.bar, self.plt.show, self.plt.tight_layout = self.keep
        self.plt.close("all")

    def shown(self):
        require(len(self.bars) == 1, lambda: f"{len(self.bars)} histograms drawn")
        return self.bars[0]


def circuit(dims, mappings=None):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    c = QuantumCircuit(len(dims), list(dims), 0)
    if mappings is not None:
        c.set_mapping([list(m) for m in mappings])
    return c


def basis(dims):
    return list(itertools.product(*[range(d) for d in dims]))


def digits_of(label, dims):
    """The levels a label names, if it can be read back without ambiguity."""
    if max(dims) <= 10:
        return tuple(int(c) for c in label) if label.isdigit() and len(label) == len(dims) else None
    import re

    parts = re.findall(r"\d+", label)
    return tuple(int(p) for p in parts) if len(parts) == len(dims) else None


def check_labels(case, rec):
    from mqt.qudits.visualisation import plot_counts, plot_state
    from mqt.qudits.visualisation.mini_quantum_information import get_density_matrix_from_counts
    from mqt.qudits.visualisation.plot_information import state_labels

    dims, circ = case["dims"], circuit(case["dims"])
    states = basis(dims)
    key = str(dims)
    labels = state_labels(circ)
    require(len(labels) == len(states), lambda: f"{len(labels)} labels for {len(states)} states", key)
    require(len(set(labels)) == len(labels), lambda: f"states share a label: {sorted({x for x in labels if labels.count(x) > 1})[:6]}", key)
    require([digits_of(x, dims) for x in labels] == states, "the labels do not name the levels of the states in order", key)
    for i in range(len(states)):
        vec = np.zeros(len(states), dtype=complex)
        vec[i] = 0.8j
        vec[(i + 1) % len(states)] = -0.6
        for shape in (vec, vec.reshape(1, -1)):
            with Bars() as b:
                plot_state(shape, circ)
            x, h = b.shown()
            require(x == labels and np.allclose(h, np.abs(vec)), lambda: f"histogram of state {i} shows {h}", key)
        with Bars() as b:
            plot_counts([i, i, (i + 1) % len(states)], circ)
        x, h = b.shown()
        want = np.zeros(len(states))
        want[i] += 2
        want[(i + 1) % len(states)] += 1
        require(x == labels and np.allclose(h, want), lambda: f"histogram of counts {i} shows {h}", key)
        rho = get_density_matrix_from_counts([i, i, (i + 1) % len(states)], circ)
        require(np.shape(rho) == (len(states),) * 2 and np.allclose(rho, np.diag(want / 3)), lambda: f"density matrix for outcomes {i} {i} {(i + 1) % len(states)} is {np.round(np.diag(rho), 3).tolist() if np.ndim(rho) == 2 else rho}", key)
        rec.step(4)
        rec.state((key, i))
    rec.trace()


def check_counts(case, rec):
    from mqt.qudits.visualisation import plot_counts
    from mqt.qudits.visualisation.mini_quantum_information import get_density_matrix_from_counts

    dims, circ = case["dims"], circuit(case["dims"])
    n = int(np.prod(dims))
    for outs in itertools.product(range(n), repeat=case["len"]):
        key = f"{dims} outcomes {list(outs)}"
        want = np.bincount(outs, minlength=n)
        for form in (list(outs), [np.int64(o) for o in outs]):
            with Bars() as b:
                got = plot_counts(form, circ)
            _, h = b.shown()
            require(np.array_equal(h, want) and np.array_equal(np.asarray(got), want), lambda: f"counts {h}, expected {want.tolist()}", key)
        for form in (list(outs), np.array(outs)):
            rho = get_density_matrix_from_counts(form, circ)
            require(np.allclose(rho, np.diag(want / len(outs))), "density matrix", key)
        rec.step()
        rec.state((tuple(dims), outs))
    rec.trace()


def check_placed(case, rec):
    from mqt.qudits.visualisation import plot_counts, plot_state
    from mqt.qudits.visualisation.plot_information import remap_result

    dims = case["dims"]
    n = int(np.prod(dims))
    for maps in itertools.product(*[list(itertools.permutations(range(d))) for d in dims]):
        circ = circuit(dims, maps)
        key = f"{dims} placement {maps}"
        vec = np.arange(1, n + 1) * np.exp(0.3j * np.arange(n))
        vec /= np.linalg.norm(vec)
        phys = full_perm(maps) @ vec  # logical level l of a line sits on physical level maps[l]
        back = np.ravel(remap_result(phys.copy(), circ))
        require(np.allclose(back, vec), "remapping a state does not give it on logical levels", key)
        back = np.asarray(remap_result(phys.reshape(1, -1).copy(), circ))
        require(back.shape == (1, n) and np.allclose(back[0], vec), "remapping a row vector", key)
        as_list = list(range(10, 10 + n))
        got = np.asarray(remap_result(list(full_perm(maps) @ np.array(as_list)), circ))
        require(np.allclose(got, as_list), "remapping a list of counts", key)
        with Bars() as b:
            plot_state(phys, circ)
        require(np.allclose(b.shown()[1], np.abs(vec)), "histogram of a state on a placed register", key)
        outs = [k for k in range(n) for _ in range(k % 3)]
        pos = [int(np.argmax(full_perm(maps)[:, k])) for k in outs]
        with Bars() as b:
            plot_counts(pos, circ)
        require(np.allclose(b.shown()[1], np.bincount(outs, minlength=n)), "histogram of counts on a placed register", key)
        rec.step(5)
        rec.state((tuple(dims), maps))
    rec.trace()


def check_trace(case, rec):
    from mqt.qudits.visualisation.mini_quantum_information import partial_trace

    dims = case["dims"]
    n, k = int(np.prod(dims)), len(dims)
    base = np.arange(n * n).reshape(n, n)
    rho = np.sin(base) + 1j * np.cos(1.7 * base * base)
    before = rho.copy()
    states = [ref.digits(i, dims) for i in range(n)]
    for keep in itertools.chain.from_iterable(itertools.combinations(range(k), m) for m in range(1, k + 1)):
        kd = [dims[q] for q in keep]
        want = np.zeros((int(np.prod(kd)),) * 2, dtype=complex)
        rest = [q for q in range(k) if q not in keep]
        for i, a in enumerate(states):
            for j, b in enumerate(states):
                if all(a[q] == b[q] for q in rest):
                    want[ref.index([a[q] for q in keep], kd), ref.index([b[q] for q in keep], kd)] += rho[i, j]
        for opt in (False, True):
            got = partial_trace(rho, list(keep), list(dims), optimize=opt)
            require(got.shape == want.shape and np.allclose(got, want), "reduced matrix is wrong", f"{dims} keep {keep}")
            rec.step()
        require(np.array_equal(rho, before), "the argument was changed", f"{dims} keep {keep}")
        rec.state((tuple(dims), keep))
    rec.trace()
