"""C01: every gate's matrix is its documented unitary, for all dimensions / level pairs / angles in bounds."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import Violation, require

PROPERTY = "C01"
RULE = ("one case per (gate, dimension tuple); inside it every ordered level pair, level, permutation and every "
        "angle of the grid is built on the real circuit and compared entry-wise with the reference matrix, "
        "together with its adjoint, its double adjoint and a second read")
BOUNDS = {
    "quick": "single-qudit d=2..6 (up to 13 with two angles per level pair and transposed and rotated permutations), two-qudit dims in 2..4 (cx: every angle) and 2..8 with a product up to 49, both orders, angles k*pi/20 in [-4.2pi,4.2pi] (varied one at a time) and a 14x14 angle grid",
    "thorough": "single-qudit d=2..9, two-qudit dims in 2..6 both orders, the same angle grids at every level pair",
}
ASSUMPTIONS = ["matrix entries compared to 1e-8; angles restricted to the stated grid"]
FINE = [k * math.pi / 20 for k in range(-84, 85)] + [s * a for s in (1, -1) for a in (1e-9, 1e-5, 9.3 * math.pi, 20 * math.pi + 0.1, 63.7 * math.pi)]


def cases(tier, seed):
    dmax, tmax = (6, 4) if tier == "quick" else (9, 6)
    for d in range(2, dmax + 1):
        for name in ["r", "rz", "rh", "virtrz", "x", "z", "s", "h", "pm", "cu_one", "noisex", "noisey", "noisez", "gellmann"]:
            if name == "s" and not _prime(d):
                continue
            if name == "pm" and d > 6:
                continue
            yield {"gate": name, "dims": [d]}
    for d in range(dmax + 1, 14):  # wide qudits: gates without a grid of angles
        for name in ["r", "rz", "pm", "rh", "virtrz", "x", "z", "s", "h", "cu_one", "noisex", "noisey", "noisez", "gellmann"]:
            if name != "s" or _prime(d):
                yield {"gate": name, "dims": [d], "wide": True}
    for d0, d1 in itertools.product(range(2, 9), repeat=2):
        if max(d0, d1) > tmax and d0 * d1 <= 49:
            for name in ["csum", "cx", "ms", "ls", "cu_two"]:
                yield {"gate": name, "dims": [d0, d1], **({"wide": True} if name == "cx" else {})}
    for d0, d1 in itertools.product(range(2, tmax + 1), repeat=2):
        for name in ["csum", "cx", "ms", "ls", "cu_two"]:
            yield {"gate": name, "dims": [d0, d1]}
    for dims in [[2, 3, 2], [3, 2, 4], [2, 2, 2]]:
        yield {"gate": "cu_multi", "dims": dims}
    for d in ([2, 3], [2, 2, 3]):
        yield {"gate": "randu", "dims": d}


def _prime(n):
    return all(n % k for k in range(2, n))


def params(name, dims, wide=False):
    d = dims[0]
    pairs = list(itertools.permutations(range(d), 2))
    if wide and name == "r":
        for a, b in pairs:
            yield from ([a, b, 0.7, 0.3], [a, b, -2.1, 2.5])
    elif wide and name == "rz":
        for a, b in pairs:
            yield from ([a, b, 0.9], [a, b, -4.0])
    elif wide and name == "pm":
        for a, b in itertools.combinations(range(d), 2):
            p = list(range(d))
            p[a], p[b] = b, a
            yield p
            yield p[b:] + p[:b]
    elif wide and name == "cx":
        for a, b in itertools.combinations(range(dims[1]), 2):
            for lev in range(dims[0]):
                yield from ([a, b, lev, 0.6], [a, b, lev, 4.5])
    elif name == "r":
        for a, b in pairs:
            for t in FINE:
                yield [a, b, t, 0.3]
            for t, p in itertools.product(G.ANG, G.ANG):
                yield [a, b, t, p]
    elif name == "rz":
        for a, b in pairs:
            for t in FINE:
                yield [a, b, t]
    elif name in {"rh", "noisex", "noisey"}:
        for a, b in pairs:
            yield [a, b]
    elif name == "virtrz":
        for a in range(d):
            for t in FINE:
                yield [a, t]
    elif name == "noisez":
        for a in range(d):
            yield [a]
    elif name == "pm":
        for p in itertools.permutations(range(d)):
            yield list(p)
    elif name in {"cu_one", "cu_two", "cu_multi"}:
        yield from ["id", "diag", "perm", "real", "u1", "u2"]
    elif name == "cx":
        yield None
        for a, b in itertools.combinations(range(dims[1]), 2):
            for lev in range(dims[0]):
                for t in [k * math.pi / 8 for k in range(17)]:
                    yield [a, b, lev, t]
    elif name in {"ms", "ls"}:
        for t in [k * math.pi / 20 for k in range(0, 41, 1 if max(dims) <= 4 else 5)]:
            yield [t]
    else:
        yield None


def check(case, rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    name, dims = case["gate"], case["dims"]
    n = len(dims)
    if name == "randu":
        c = QuantumCircuit(n, list(dims), 0)
        g = c.randu(list(range(n)))
        for _ in range(5):
            m = g.to_matrix(0)
            rec.step()
            require(ref.same(m @ m.conj().T, np.eye(int(np.prod(dims)))), "random gate is not unitary")
        rec.trace()
        rec.state(("randu", dims))
        return
    if name == "gellmann":
        return gellmann(dims[0], rec)
    orders = [list(range(n))] if n != 2 or name in {"cu_two"} else [[0, 1], [1, 0]]
    for t in orders:
        for p in params(name, dims if t[0] == 0 else dims[::-1], case.get("wide", False)):
            c = QuantumCircuit(n, list(dims), 0)
            spec = [name, t, p, None, False]
            given = None if p is None else (list(p) if isinstance(p, list) else p)
            g = G.put(c, spec)
            want = ref.embed(G.base_matrix(spec, dims), t, dims)
            key = f"{name} dims={dims} targets={t} params={given}"
            m = np.asarray(g.to_matrix(0))
            rec.step(4)
            rec.trace()
            rec.state((key, ref.canon(m)))
            if not ref.same(m, want):
                raise Violation(f"matrix differs from the definition:\n{np.round(m, 4)}\nexpected\n{np.round(want, 4)}", key)
            require(ref.same(m @ m.conj().T, np.eye(len(m))), "not unitary", key)
            require(ref.same(g.to_matrix(0), want), "a second read differs", key)
            spoil(g)
            require(ref.same(g.to_matrix(0), want), "changing the matrix that was read changes the gate", key)
            g = g.dag()
            spoil(g)
            require(ref.same(g.to_matrix(0), want.conj().T), "adjoint differs from the conjugate transpose", key)
            g = g.dag()
            require(ref.same(g.to_matrix(0), want), "adjoint of the adjoint is not the gate", key + " dag.dag")
            require(len(c.instructions) == 1 and c.instructions[0] is g, "building a matrix changed the circuit", key)


def spoil(g):
    """What a caller may do to a matrix it was given."""
    for ids in (0, 1, 2):
        m = g.to_matrix(ids)
        if isinstance(m, np.ndarray) and m.flags.writeable:
            m[...] = 7


def gellmann(d, rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    c = QuantumCircuit(1, [d], 0)
    basis = []
    for a, b in itertools.combinations(range(d), 2):
        for ty in "sa":
            basis.append((f"{ty}{a}{b}", c.gellmann(0, [a, b, ty]).to_matrix()))
            m = np.zeros((d, d), dtype=complex)
            m[a, b], m[b, a] = (1, 1) if ty == "s" else (-1j, 1j)
            require(ref.same(basis[-1][1], m), "generator differs", f"gellmann {d} {a} {b} {ty}")
            rec.step()
            rec.state((d, a, b, ty))
    for b in range(1, d):
        basis.append((f"d{b}", c.gellmann(0, [0, b, "d"]).to_matrix()))
        rec.state((d, "d", b))
        m = np.diag([1.0 + 0j] * b + [-b] + [0] * (d - b - 1)) * math.sqrt(2 / (b * (b + 1)))
        for a in range(b):
            require(ref.same(c.gellmann(0, [a, b, "d"]).to_matrix(), m), "diagonal generator differs", f"gellmann {d} {a} {b} d")
    for (na, ma), (nb, mb) in itertools.product(basis, repeat=2):
        ip = np.trace(ma.conj().T @ mb)
        require(abs(ip - (2 if na == nb else 0)) < 1e-9, f"generators {na},{nb} not orthogonal", f"gellmann {d} {na} {nb}")
        rec.step()
    for na, ma in basis:
        require(ref.same(ma, ma.conj().T) and abs(np.trace(ma)) < 1e-9, f"{na} not traceless hermitian", f"gellmann {d} {na}")
    require(len(c.instructions) == 0, "a generator must not become a circuit instruction", f"gellmann {d}")
    rec.trace()
