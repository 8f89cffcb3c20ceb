"""C02: a gate on a register acts exactly on its targets, exactly when its controls match, identity elsewhere."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C02"
RULE = ("every register shape x gate x target tuple x control set (lines in every order, every level combination) "
        "within the bound; all three matrix forms (own lines, spanned slice, whole register), both ways of attaching "
        "controls, with and without adjoint, against an independent digit-by-digit embedding")
BOUNDS = {
    "quick": "registers of 1-3 lines, dims in {2,3,4} (volume<=36), up to 2 controls, all level combinations, all line orders; 4 lines dims {2,3} vol<=36",
    "thorough": "registers of 1-4 lines, dims in {2,3,4,5} (volume<=72), up to 3 controls",
}


def shapes(tier):
    vals, cap, nmax = ((2, 3, 4), 36, 3) if tier == "quick" else ((2, 3, 4, 5), 72, 4)
    for n in range(1, nmax + 1):
        for dims in itertools.product(vals, repeat=n):
            if np.prod(dims) <= cap:
                yield list(dims)
    if tier == "quick":
        yield from ([2, 3, 2, 2], [3, 2, 2, 3], [2, 2, 3, 2])


def singles(d, q):
    yield ["x", [q], None]
    yield ["cu_one", [q], "u1"]
    yield ["r", [q], [0, d - 1, 0.7, 0.4]]
    yield ["h", [q], None]
    yield ["virtrz", [q], [d - 1, 0.9]]
    yield ["rh", [q], [d - 1, 0]]


def cases(tier, seed):
    for dims in shapes(tier):
        yield {"dims": dims, "maxctl": 2 if tier == "quick" else 3}


def specs(dims, maxctl):
    n = len(dims)
    for q in range(n):
        for k, s in enumerate(singles(dims[q], q)):
            yield s + [None, False]
            others = [x for x in range(n) if x != q]
            for m in range(1, min(maxctl, n - 1) + 1):
                for lines in itertools.permutations(others, m):
                    for lev in itertools.product(*[range(dims[x]) for x in lines]):
                        if k < 2 or sum(lev) % 2 == 1 or m == 1:
                            yield s + [[[a, b] for a, b in zip(lines, lev)], (k + sum(lev)) % 2 == 1]
    for a, b in itertools.permutations(range(n), 2):
        yield ["csum", [a, b], None, None, False]
        yield ["csum", [a, b], None, None, True]
        yield ["cx", [a, b], None, None, False]
        yield ["cx", [a, b], [0, dims[b] - 1, dims[a] - 1, 0.6], None, False]
        yield ["ms", [a, b], [0.8], None, False]
        yield ["ls", [a, b], [math.pi / 3], None, True]
        if a < b:
            yield ["cu_two", [a, b], "u1", None, False]
            yield ["cu_two", [a, b], "u2", None, True]
    for m in range(3, n + 1):
        for t in itertools.combinations(range(n), m):
            yield ["cu_multi", list(t), "u1", None, False]


def check(case, rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    dims = case["dims"]
    n = len(dims)
    circ = QuantumCircuit(n, list(dims), 0)
    for spec in specs(dims, case["maxctl"]):
        styles = ["control", "ctor"] if spec[3] else ["control"]
        want = G.ref_full(spec, dims)
        lines = sorted(spec[1] + [c[0] for c in spec[3] or []])
        lo, hi = lines[0], lines[-1] + 1
        local = [q - lo for q in spec[1]]
        lctl = [[c[0] - lo, c[1]] for c in spec[3] or []] or None
        slice_want = G.ref_full([spec[0], local, spec[2], lctl, spec[4]], dims[lo:hi])
        for style in styles:
            g = G.put(circ, spec, style)
            key = f"dims={dims} {spec} {style}"
            rec.step(3)
            rec.trace()
            rec.state((dims, spec[0], spec[1], spec[3], ref.canon(want)))
            require(ref.same(g.to_matrix(2), want), lambda: "whole-register matrix differs from the reference", key)
            require(ref.same(g.to_matrix(1), slice_want), lambda: "matrix on the spanned lines differs", key)
            if not spec[3] and hi - lo == len(lines):
                require(ref.same(g.to_matrix(0), slice_want), lambda: "matrix on the gate's lines differs", key)
            if spec[3]:
                require(ref.same(g.to_matrix(0), slice_want), lambda: "controlled matrix differs", key)
            require(sorted(g.reference_lines) == lines, lambda: f"lines reported {g.reference_lines}", key)
            require(ref.same(np.asarray(g.to_matrix(2)), want), lambda: "second read differs", key)
    require(circ.dimensions == dims and circ.num_qudits == n, "register changed", f"dims={dims}")
