"""C28: local parametrisations, gate embeddings and sparsification mean what their circuits do."""
from __future__ import annotations

import itertools
import warnings

import numpy as np

from mc import gates as G, ref
from mc.checks import c27
from mc.core import require

PROPERTY = "C28"
RULE = ("every register layout, line and gate for the embedding helpers; every point of a parameter grid for the local unitaries; every grid "
        "assignment for the ansatz against the gate list built from it; sparsify under a scripted minimiser for every layout")
BOUNDS = {
    "quick": "1-3 lines of dims 2-4; grid of 4 values per parameter (dim 2), 3 (dim 3, all assignments of one parameter triple), dim 4 pairs; 8 layouts x 3 matrices x 2 minimisers",
    "thorough": "1-4 lines of dims 2-4; full 3-value grid for dim 3",
}
ASSUMPTIONS = ["a local parametrisation covers the special unitary group when its derivative has full rank at generic grid points and all basis permutations are reached by composing grid points"]
CASE_LIMIT_S = 300


def cases(tier, seed):
    deep = tier == "thorough"
    for n in range(1, 5 if deep else 4):
        for dims in itertools.product((2, 3, 4), repeat=n):
            if np.prod(dims) <= 100:
                yield {"kind": "embed", "dims": list(dims)}
    for d in (2, 3, 4):
        yield {"kind": "rank", "d": d}
    for d in (2, 3, 4) if deep else (2, 3):
        for k in range(len(family(d))):
            yield {"kind": "reach", "d": d, "which": k}
    for a, b, c in itertools.product(range(4), repeat=3):
        yield {"kind": "sud", "d": 2, "values": [a, b, c], "at": [0, 1, 2]}
    for at in itertools.combinations(range(8), 3):
        yield {"kind": "sudgrid", "d": 3, "at": list(at), "full": False}
    for at in itertools.combinations(range(15), 2):
        yield {"kind": "sudgrid", "d": 4, "at": list(at), "full": False}
    if deep:
        for v in itertools.product(range(3), repeat=4):
            yield {"kind": "sudgrid", "d": 3, "at": [4, 5, 6, 7], "full": True, "base": list(v)}
    for d0, d1 in itertools.product((2, 3, 4), repeat=2):
        yield {"kind": "split", "dims": [d0, d1]}
        for kind in ("CU", "MS", "LS"):
            yield {"kind": "ansatz", "dims": [d0, d1], "ansatz": kind}
    for act in ("given", "worse"):
        for li in range(len(c27.LAYOUTS)):
            for m in ("rand", "csum", "ls"):
                yield {"kind": "sparse", "layout": li, "matrix": m, "act": act}


def check(case, rec):
    globals()["check_" + case["kind"]](case, rec)


check_sparse = c27.check_sparse


def check_embed(case, rec):
    from mqt.qudits.compiler.compilation_minitools import apply_gate_to_tlines, gate_expand_to_circuit, on0, on1

    dims = case["dims"]
    n = len(dims)
    size = int(np.prod(dims))
    for t in range(n):
        for tag in ("rand", "perm", "diag"):
            m = G.unitary(tag, dims[t])
            keep = m.copy()
            got = gate_expand_to_circuit(m, n, t, dims)
            what = f"{dims} line {t} {tag}"
            require(np.allclose(got, ref.embed(m, [t], dims), atol=1e-10) and np.array_equal(m, keep), "gate_expand_to_circuit: " + what, what)
            if n == 2:
                other = on0(m, dims[1]) if t == 0 else on1(m, dims[0])
                require(np.allclose(other, got, atol=1e-10), f"on{t}: " + what, what)
            rec.step(2)
            rec.state((dims, t, tag))
            if set(dims) == {2}:
                require(np.allclose(gate_expand_to_circuit(m, n, t, None), got) if n == 2 else True, "default dims: " + what, what)
    if len(set(dims)) == 1:
        m = G.unitary("rand", dims[0])
        for k in range(1, n + 1):
            for ts in itertools.permutations(range(n), k):
                want = sum(ref.embed(m, [t], dims) for t in ts)
                what = f"{dims} lines {ts}"
                got = apply_gate_to_tlines(m, n, list(ts), dims)
                require(got.shape == (size, size) and np.allclose(got, want, atol=1e-10), "apply_gate_to_tlines: " + what, what)
                if k == 1:
                    require(np.allclose(apply_gate_to_tlines(m, n, ts[0], dims), want, atol=1e-10), "apply_gate_to_tlines (one line): " + what, what)
                if list(ts) == list(range(n)):
                    require(np.allclose(apply_gate_to_tlines(m, n, None, dims), want, atol=1e-10), "apply_gate_to_tlines (all lines): " + what, what)
                    if dims[0] == 2:
                        require(np.allclose(apply_gate_to_tlines(m, n), want, atol=1e-10), "apply_gate_to_tlines (defaults): " + what, what)
                rec.step()
                rec.state((dims, ts))
    for bad in ((0, 0), (n, n), (n, n + 1)):
        try:
            gate_expand_to_circuit(G.unitary("rand", dims[0]), bad[0], bad[1], dims)
            ok = False
        except ValueError:
            ok = True
        require(ok, f"{dims}: {bad} accepted", str((dims, bad)))
    rec.trace()


def box(d):
    """The bounds of the parameters of one local unitary, from the optimiser."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import Optimizer

    old = Optimizer.SINGLE_DIM_0, Optimizer.SINGLE_DIM_1
    Optimizer.SINGLE_DIM_0 = Optimizer.SINGLE_DIM_1 = d
    try:
        b = Optimizer.return_bounds(1)
    finally:
        Optimizer.SINGLE_DIM_0, Optimizer.SINGLE_DIM_1 = old
    require(len(b) % (d * d - 1) == 0, f"{len(b)} bounds for dimension {d}")
    for k in range(0, len(b), d * d - 1):
        require(b[k:k + d * d - 1] == b[:d * d - 1], "bounds differ between local unitaries")
    return b[:d * d - 1]


def sud(p, d):
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.parametrize import generic_sud

    keep = list(p)
    u = generic_sud(p, d)
    what = f"dimension {d}, parameters {keep}"
    require(list(p) == keep and u.shape == (d, d), "parameters changed: " + what, what)
    require(np.allclose(u @ u.conj().T, np.eye(d), atol=1e-9), "not unitary: " + what, what)
    require(abs(np.linalg.det(u) - 1) < 1e-8, "not special: " + what, what)
    require(np.allclose(generic_sud(np.array(keep), d), u), "depends on the container: " + what, what)
    return u


def check_sud(case, rec):
    d, b = case["d"], box(case["d"])
    p = [lo + (hi - lo) * v / 3 for (lo, hi), v in zip(b, case["values"])]
    u = sud(p, d)
    rec.step()
    rec.trace()
    rec.state((d, case["values"], np.round(u, 6).tolist()))


def check_sudgrid(case, rec):
    d, b = case["d"], box(case["d"])
    base = [lo + (hi - lo) * (0.1 + 0.05 * i) for i, (lo, hi) in enumerate(b)]
    free = case["at"]
    for i, v in enumerate(case.get("base", [])):
        base[i] = b[i][0] + (b[i][1] - b[i][0]) * v / 2
    seen = []
    for vals in itertools.product(range(3), repeat=len(free)):
        p = list(base)
        for i, v in zip(free, vals):
            p[i] = b[i][0] + (b[i][1] - b[i][0]) * v / 2
        u = sud(p, d)
        seen.append(u)
        rec.step()
        rec.state((d, free, vals, tuple(case.get("base", []))))
    rec.trace()


def check_rank(case, rec):
    """Every direction of the group is reachable: the derivative has full rank at generic points, and the bounds reach both ends."""
    d, b = case["d"], box(case["d"])
    full = 0
    for k in range(8):
        rng = np.random.RandomState(k)
        p = np.array([lo + (hi - lo) * (0.2 + 0.6 * rng.rand()) for lo, hi in b])
        u = sud(p, d)
        cols = []
        for i in range(len(p)):
            q = p.copy()
            q[i] += 1e-6
            g = (sud(q, d) - u) @ u.conj().T / 1e-6
            g = g - np.trace(g) / d * np.eye(d)
            cols.append(np.concatenate([g.real.ravel(), g.imag.ravel()]))
        full += np.linalg.matrix_rank(np.array(cols), tol=1e-3) == d * d - 1
        rec.step(len(p))
    require(full == 8, f"dimension {d}: the parameters do not span the group at {8 - full} generic points", f"rank {d}")
    # two-level rotations by every half turn between every pair of levels are in the box
    from scipy.linalg import expm

    for m, n in itertools.combinations(range(d), 2):
        for angle in (0.3, np.pi / 4, np.pi / 2):
            y = np.zeros((d, d), dtype=complex)
            y[m, n], y[n, m] = -1j, 1j
            want = expm(1j * angle * y)
            found = False
            for i, (lo, hi) in enumerate(b):
                if lo <= angle <= hi:
                    p = [0.0] * len(b)
                    p[i] = angle
                    found = found or np.allclose(sud(p, d), want, atol=1e-9)
            require(found, f"dimension {d}: no parameter rotates levels {m}, {n} by {angle}", f"rotation {d} {m} {n} {angle}")
            rec.step()
            rec.state((d, m, n, angle))
    for m in range(d - 1):
        # phases of up to a full turn on every level but the last
        for phase in (1.0, 3.0, 5.0):
            z = np.eye(d, dtype=complex)
            z[m, m], z[d - 1, d - 1] = np.exp(1j * phase), np.exp(-1j * phase)
            found = False
            for i, (lo, hi) in enumerate(b):
                if lo <= phase <= hi:
                    p = [0.0] * len(b)
                    p[i] = phase
                    found = found or np.allclose(sud(p, d), z, atol=1e-9)
            require(found, f"dimension {d}: no parameter gives level {m} the phase {phase}", f"phase {d} {m} {phase}")
            rec.step()
    rec.trace()


def family(d):
    """Basis permutations with phases, discrete Fourier transforms, Clifford-like products, and generic unitaries."""
    w = np.exp(2j * np.pi / d)
    f = np.array([[w ** (i * j) for j in range(d)] for i in range(d)]) / np.sqrt(d)
    out = []
    for p in itertools.permutations(range(d)):
        m = np.eye(d, dtype=complex)[:, list(p)]
        out.append(m)
        if d < 4:
            for ph in (np.diag([1j ** k for k in range(d)]), np.diag([w ** (k * k) for k in range(d)])):
                out += [m @ ph, f @ m @ ph, ph @ f @ m @ ph]
    out += [G.unitary(t, d) for t in ("rand", "real", "ent", "other")]
    return out


def check_reach(case, rec):
    """Some point of the box gives the target up to phase (witness search from fixed starts)."""
    from scipy.optimize import least_squares

    d, b = case["d"], box(case["d"])
    want = family(d)[case["which"]]
    lo, hi = np.array(b, dtype=float).T
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.parametrize import generic_sud

    def res(p):
        u = generic_sud(p, d)
        ph = np.vdot(want, u)
        r = u - want * (ph / abs(ph) if abs(ph) > 1e-12 else 1)
        return np.concatenate([r.real.ravel(), r.imag.ravel()])

    best = 9.0
    for k in range(60):
        start = lo + (hi - lo) * (0.02 + 0.96 * np.random.RandomState(100 + k).rand(len(b)))
        r = least_squares(res, start, bounds=(lo, hi), xtol=1e-14, ftol=1e-14, gtol=1e-14, max_nfev=200)
        rec.step()
        best = min(best, float(np.max(np.abs(r.fun))))
        if best < 1e-4:
            break
    require(best < 1e-4, f"dimension {d}: no parameters give unitary {case['which']} (nearest {best:.2g})", f"reach {d} {case['which']}")
    rec.trace()
    rec.state((d, case["which"]))


def check_split(case, rec):
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.parametrize import params_splitter

    dims = case["dims"]
    n, m = (k * k - 1 for k in dims)
    for total in range(0, 4 * (n + m) + 1):
        p = [float(i) for i in range(total)]
        for box_ in (list, np.array):
            try:
                out = params_splitter(box_(p), dims)
            except ValueError:
                out = None
            if total % (n + m):
                require(out is None, f"{dims}: {total} parameters accepted", f"{dims} {total}")
            else:
                require(out is not None and [len(x) for x in out] == [n, m] * (total // (n + m)) and [v for x in out for v in x] == p,
                        f"{dims}: {total} parameters split wrongly", f"{dims} {total}")
            rec.step()
        rec.state((dims, total))
    for bad in ([2], [2, 2, 2], []):
        try:
            params_splitter([0.0] * 6, bad)
            ok = False
        except ValueError:
            ok = True
        require(ok, f"dims {bad} accepted", str(bad))
    rec.trace()


def check_ansatz(case, rec):
    """For every number of layers the ansatz is the operator of the gate list created from the same parameters."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation import ansatz as A
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz.ansatz_gen_utils import Primitive
    from mqt.qudits.quantum_circuit import QuantumCircuit

    d, kind = case["dims"], case["ansatz"]
    make = {"CU": A.create_cu_instance, "MS": A.create_ms_instance, "LS": A.create_ls_instance}[kind]
    for tag in ("rand", "ent", "perm", "id") if kind == "CU" else ("",):
        c = QuantumCircuit(2, list(d), 0)
        prim = c27.target_of(c, [0, 1], G.unitary(tag, d[0] * d[1])) if kind == "CU" else None
        old = Primitive.CUSTOM_PRIMITIVE
        Primitive.set_class_variables(prim)
        try:
            for n in (0, 1, 2, 3):
                for seed in range(3):
                    p = c27.params(seed, n, d)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        m = c27.ansatz_matrix(kind, p, d, prim)
                        gates = make(c, p, d)
                        c.set_instructions(list(gates))
                        u = c27.operator(c)
                    what = f"{kind} {d} {tag} {n} primitives, parameters {seed}"
                    require(np.allclose(m, u, atol=1e-8), "ansatz and circuit differ: " + what, what)
                    two = sum(isinstance(g.target_qudits, list) and len(g.target_qudits) == 2 for g in gates)
                    require(two == n, f"{two} primitives: " + what, what)
                    rec.step(len(gates))
                    rec.state((what,))
        finally:
            Primitive.set_class_variables(old)
    rec.trace()
