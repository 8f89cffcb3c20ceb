"""C32: histograms and drawings show the data they are given."""
from __future__ import annotations

import itertools
import os
import re
import tempfile

os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np

from mc import gates as G
from mc.core import require

PROPERTY = "C32"
RULE = ("every sequence of plotting calls (measured shots, state vectors, histograms with and without error bars, shown or saved) up to a depth on every "
        "register; whenever a figure is shown or saved, the bars, error bars and tick labels in it are compared with the data of that call alone, and the "
        "returned values with the data brought back through the circuit's mapping; every text drawing compared symbol by symbol with its circuit")
BOUNDS = {"quick": "sequences of length 2 over 8 calls on 5 registers x every mapping of one qudit (plus mixed), length 3 on 1; 7 gates ^ 3 drawings", "thorough": "length 3 on 3 registers, length 4 on 1; 7 gates ^ 4 drawings"}
ASSUMPTIONS = ["matplotlib's own rendering (backend Agg) is trusted; figures are inspected through their artists at the time they are shown or saved"]
REGS = [[2], [3], [2, 2], [3, 2], [2, 3], [11]]
CALLS = ["counts", "counts array", "state", "state errors", "show", "show errors", "save", "empty counts"]


def mappings(dims):
    yield None
    for i, d in enumerate(dims):
        for p in itertools.permutations(range(d)) if d <= 3 else [tuple(reversed(range(d)))]:
            if p != tuple(range(d)):
                yield [list(p) if k == i else list(range(dd)) for k, dd in enumerate(dims)]
    if len(dims) > 1:
        yield [list(range(1, d)) + [0] for d in dims]


def cases(tier, seed):
    deep = tier == "thorough"
    for dims in REGS:
        maps = list(mappings(dims))
        for m in range(len(maps)):
            yield {"kind": "plots", "dims": dims, "mapping": m, "pre": [], "depth": 1}
        for first in range(len(CALLS)):
            yield {"kind": "plots", "dims": dims, "mapping": len(maps) - 1, "pre": [first], "depth": 1}
    for dims in ([[3, 2], [2], [2, 3]] if deep else [[3, 2]]):
        for a, b in itertools.product(range(len(CALLS)), repeat=2):
            yield {"kind": "plots", "dims": dims, "mapping": 0, "pre": [a, b], "depth": 1}
    if deep:
        for pre in itertools.product(range(len(CALLS)), repeat=3):
            yield {"kind": "plots", "dims": [3, 2], "mapping": 1, "pre": list(pre), "depth": 1}
    for first in range(len(DRAWN)):
        yield {"kind": "draw", "first": first, "depth": 3 if deep else 2}


def bars(plt):
    """(labels, heights, error half-lengths) of every histogram in the current figure."""
    fig = plt.gcf()
    out = []
    for ax in fig.axes:
        ticks = {round(float(t), 6): lab.get_text() for t, lab in zip(ax.get_xticks(), ax.get_xticklabels())}
        for c in ax.containers:
            if not hasattr(c, "patches") or not len(c.patches):
                continue
            at = [round(float(p.get_x() + p.get_width() / 2), 6) for p in c.patches]
            err = None
            if getattr(c, "errorbar", None) is not None:
                segs = c.errorbar.lines[2][0].get_segments()
                err = [float(abs(s[1][1] - s[0][1]) / 2) for s in segs]
            out.append(([ticks.get(x) for x in at], [float(p.get_height()) for p in c.patches], err, ax.get_title(), ax.get_xlabel(), ax.get_ylabel()))
    return out


def names(dims):
    sep = "," if max(dims) > 10 else ""
    return [sep.join(str(x) for x in lev) for lev in itertools.product(*(range(d) for d in dims))]


def back(values, dims, mapping):
    if not mapping:
        return list(values)
    t = np.asarray(values, dtype=float).reshape(dims)
    return [float(t[tuple(m[x] for m, x in zip(mapping, lev))]) for lev in itertools.product(*(range(d) for d in dims))]


def plots(case, rec):
    import matplotlib.pyplot as plt

    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.visualisation import plot_counts, plot_state
    from mqt.qudits.visualisation.plot_information import HistogramWithErrors

    dims = case["dims"]
    n = int(np.prod(dims))
    mapping = list(mappings(dims))[case["mapping"]]
    circ = QuantumCircuit(len(dims), list(dims), 0)
    if mapping:
        circ.set_mapping([list(m) for m in mapping])
    seen = []
    real_show, real_save = plt.show, plt.savefig

    def show(*_a, **_k):
        seen.append(("show", bars(plt)))

    def save(*a, **k):
        seen.append(("save", bars(plt)))
        return real_save(*a, **k)

    def one(k, call, folder):
        """expected (returned values, labels, heights, errors, titles, kind)"""
        labels = names(dims)
        if "counts" in call:
            shots = [] if call.startswith("empty") else [(i * i + k) % n for i in range(2 * n + k)] + [n - 1] * (k + 1)
            given = np.array(shots, dtype=int) if "array" in call else list(shots)
            got = plot_counts(given, circ)
            require(list(given) == shots, "the measurements were modified", key)
            want = back([shots.count(i) for i in range(n)], dims, mapping)
            return got, want, labels, [0.0] * n, ("Simulation", "States", "Counts"), "show"
        if "state" in call:
            vec = np.array([(1 + i + k) * np.exp(0.5j * i * k) for i in range(n)], dtype=complex)
            vec = (vec / np.linalg.norm(vec)).reshape(1, -1)
            kept = vec.copy()
            errors = [0.01 * (i + 1) for i in range(n)] if "errors" in call else None
            got = plot_state(vec, circ, errors) if errors else plot_state(vec, circ)
            require(np.array_equal(vec, kept), "the state was modified", key)
            return got, back(np.abs(kept).ravel(), dims, mapping), labels, errors and back(errors, dims, mapping), ("Simulation", "States", "Sqrt(Pr)"), "show"
        heights = [0.5 + ((i * 3 + k) % 5) for i in range(n)]
        errors = [0.1 * (i + 1) for i in range(n)] if "errors" in call else None
        h = HistogramWithErrors(labels, heights, errors, title=f"t{k}", xlabel=f"x{k}", ylabel=f"y{k}")
        if call == "save":
            path = os.path.join(folder, f"h{k}.png")
            h.save_to_png(path)
            require(open(path, "rb").read(8) == b"\x89PNG\r\n\x1a\n", "no png file written", key)
            return None, heights, labels, errors, (f"t{k}", f"x{k}", f"y{k}"), "save"
        h.generate_histogram()
        return None, heights, labels, errors, (f"t{k}", f"x{k}", f"y{k}"), "show"

    for tail in range(len(CALLS)):
        seq = [CALLS[i] for i in (*case["pre"], tail)]
        key = f"{dims} mapping {mapping}: {seq}"
        plt.close("all")
        plt.show, plt.savefig = show, save
        try:
            with tempfile.TemporaryDirectory() as folder:
                for k, call in enumerate(seq):
                    seen.clear()
                    got, want, labels, errors, titles, how = one(k, call, folder)
                    require(len(seen) == 1 and seen[0][0] == how, f"{len(seen)} figures shown or saved", key)
                    figs = seen[0][1]
                    require(len(figs) == 1, lambda: f"call {k} ({call}): {len(figs)} histograms in one figure", key)
                    lab, heights, err, *tt = figs[0]
                    require(lab == labels, lambda: f"call {k} ({call}): labels {lab}", key)
                    require(np.allclose(heights, want, atol=1e-9), lambda: f"call {k} ({call}): bars {np.round(heights, 4).tolist()}, expected {np.round(want, 4).tolist()}", key)
                    require((err is None and errors is None) or np.allclose(err, errors, atol=1e-9), f"call {k} ({call}): error bars {err}", key)
                    require(tuple(tt) == titles, f"call {k} ({call}): titles {tt}", key)
                    if got is not None:
                        require(np.allclose(np.asarray(got, dtype=float), want, atol=1e-9), f"call {k} ({call}): returned {got}", key)
                    rec.step()
        finally:
            plt.show, plt.savefig = real_show, real_save
            plt.close("all")
        rec.state(key)
        rec.trace()


DRAWN = [["virtrz", [0], [1, 0.25], None, False], ["virtrz", [1], [0, -1.5], None, False], ["r", [0], [0, 2, 1.25, -0.5], None, False], ["r", [1], [0, 1, 3.0, 0.125], None, False],
         ["r", [0], [0, 1, -0.5, 0.25], None, False], ["r", [0], [1, 2, 7.0, -0.75], None, False], ["r", [1], [0, 1, 12.0, 7.0], None, False],
         ["virtrz", [0], [2, 7.5], None, False],
         ["cu_one", [0], "u1", None, False], ["h", [1], None, None, False], ["csum", [0, 1], None, None, False]]


def draw(case, rec):
    import contextlib
    import io

    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.visualisation import draw_qudit_local

    dims = [3, 2]
    for k in range(case["depth"] + 1):
        for rest in itertools.product(range(len(DRAWN)), repeat=k):
            specs = [DRAWN[i] for i in (case["first"], *rest)]
            circ = QuantumCircuit(2, list(dims), 0)
            for s in specs:
                G.put(circ, s)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                draw_qudit_local(circ)
            rows = buf.getvalue().splitlines()
            key = f"drawing {[s[0] + str(s[1]) for s in specs]}"
            require(len(rows) == 2, f"{len(rows)} rows for 2 lines", key)
            for line, row in enumerate(rows):
                cells = re.fullmatch(r"\|0>---((?:--.*?--)*)---=\|\|", row)
                require(cells is not None, f"line {line}: {row}", key)
                cells = re.findall(r"--(MG|G|\[.*?\])--", cells.group(1))
                require(len(cells) == len(specs), f"line {line}: {len(cells)} symbols for {len(specs)} gates: {row}", key)
                for s, cell in zip(specs, cells):
                    name, angles = re.fullmatch(r"([^(]*)\(?([^)]*)\)?\]?", cell).groups()
                    angles = [float(a) for a in angles.strip("]").split(",") if a]
                    if s[1] != [line]:
                        want, turn = ("MG", []), []
                    elif s[0] == "virtrz":
                        want, turn = (f"[VRz{s[2][0]}", s[2][1:]), [2 * np.pi]
                    elif s[0] == "r":
                        want, turn = (f"[R{s[2][0]}{s[2][1]}", s[2][2:]), [4 * np.pi, 2 * np.pi]
                    else:
                        want, turn = ("[CuOne]" if s[0] == "cu_one" else "G", []), []
                    require(name == want[0] and len(angles) == len(want[1]), f"line {line}: {cell} for {s}", key)
                    for a, w, t in zip(angles, want[1], turn):  # angles are printed with two digits, in any full turn
                        off = (a - w + t / 2) % t - t / 2
                        require(abs(off) < 0.0151, f"line {line}: {cell} for {s}", key)
            rec.step(len(specs))
            rec.state(key)
            rec.trace()


def check(case, rec):
    (plots if case["kind"] == "plots" else draw)(case, rec)
