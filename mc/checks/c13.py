"""C13: local resynthesis merges every run of local gates into one gate and keeps the circuit's operator."""
from __future__ import annotations

import itertools

import numpy as np

from mc import comp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C13"
RULE = ("every circuit of up to depth instructions from a menu of local gates (two per line), two-qudit gates in both target "
        "orders, a three-qudit gate, a controlled gate, and 'the previous instruction object again'; operator compared exactly, runs of "
        "local gates counted, order of the other gates compared; the pass applied twice; the pass between the two halves of a circuit")
BOUNDS = {"quick": "registers [2,3,2] and [3,2], depth 4; all pairs of near-identical local gates, also with another gate between; faketraps3six", "thorough": "depth 5 on [3,2], depth 4 on [3,2,4], depth 5 on half the menu of [2,3,2]"}
TOL = 1e-7


def menu(dims):
    n = len(dims)
    out = [["h", [0], None, None, False], ["r", [0], [0, 1, 0.7, 0.4], None, True], ["cu_one", [1], "u1", None, False],
           ["virtrz", [1], [1, 0.5], None, False], ["csum", [0, 1], None, None, False], ["cx", [1, 0], [0, 1, 1, 0.6], None, True],
           ["x", [1], None, [[0, 1]], False]]
    if n > 2:
        out += [["x", [2], None, None, True], ["rz", [2], [0, 1, 0.9], None, False], ["cu_two", [1, 2], "u1", None, False],
                ["ls", [2, 0], [0.4], None, False], ["cu_multi", [0, 1, 2], "u1", None, False]]
    return [*out, "again"]


def cases(tier, seed):
    deep = tier == "thorough"
    plan = [([2, 3, 2], 4), ([3, 2], 5 if deep else 4)] + ([([3, 2, 4], 4)] if deep else [])
    for dims, depth in plan:
        m = len(menu(dims))
        for a, b in itertools.product(range(m - 1), range(m)):
            yield {"dims": dims, "pre": [a, b], "depth": depth}
    for a in range(len(menu([2, 3, 2])) - 1):
        yield {"dims": [2, 3, 2], "long": a}
    for dims in [[3], [3, 3], [2, 4]] if deep else [[3], [2, 2]]:
        for lo in range(0, len(G.twin_programs(dims, 1)), 40):
            yield {"dims": dims, "twins": lo}


def layout(insts):
    """Longest-run facts: per line, whether two local gates follow each other without another gate on that line between."""
    last = {}
    for g in insts:
        lines = g.reference_lines
        local = len(lines) == 1
        for q in lines:
            if local and last.get(q):
                return False
            last[q] = local
    return True


def describe(insts):
    return [(type(g).__name__, g.target_qudits, bool(g.dagger)) for g in insts if len(g.reference_lines) > 1]


def check(case, rec):
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    from mqt.qudits.simulation import MQTQuditProvider

    dims = case["dims"]
    backend = MQTQuditProvider().get_backend("faketraps3six")
    if "twins" in case:
        sep = ["csum", [0, 1], None, None, False] if len(dims) > 1 else ["z", [0], None, None, False]
        for s, t in G.twin_programs(dims, 1)[case["twins"]:case["twins"] + 40]:
            mats = {repr(g): G.ref_full(g, dims) for g in (s, t, sep)}
            for prog in ([s, t], [s, sep, t]):
                one(NaiveLocResynthOptPass(backend), dims, prog, mats, rec)
        return
    m = menu(dims)
    mats = {repr(s): G.ref_full(s, dims) for s in m if s != "again"}
    if "long" in case:
        for b in m[:-1]:
            a = m[case["long"]]
            for prog in ([*[a] * 9, b, *[a] * 12, b, b, a], [a, b] * 70):
                one(NaiveLocResynthOptPass(backend), dims, prog, mats, rec)
        return
    for k in range(case["depth"] - 1):
        for rest in itertools.product(m, repeat=k):
            prog = [*(m[i] for i in case["pre"]), *rest]
            one(NaiveLocResynthOptPass(backend), dims, prog, mats, rec)


def make(dims, prog, mats):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    circ = QuantumCircuit(len(dims), list(dims), 0)
    want = np.eye(int(np.prod(dims)), dtype=complex)
    prev = None
    for s in prog:
        if s == "again":
            circ.set_instructions([*circ.instructions, circ.instructions[-1]])
        else:
            G.put(circ, s)
            prev = mats[repr(s)]
        want = prev @ want
    return circ, want


def one(p, dims, prog, mats, rec):
    key = f"{dims} {prog}"
    circ, want = make(dims, prog, mats)
    snap = comp.snapshot(circ)
    try:
        out = p.transpile(circ)
    except Exception as e:  # noqa: BLE001
        if any(s != "again" and s[3] for s in prog):
            rec.count("refused")
            return
        require(False, f"{type(e).__name__}: {e}", key)
    require(comp.snapshot(circ) == snap, "the given circuit was modified", key)
    got = G.implemented_unitary(out)
    require(ref.same(got, want, TOL), lambda: f"operator changed by {np.abs(got - want).max():.2g}", key)
    require(out.dimensions == dims and out.number_gates == len(out.instructions), "register or bookkeeping changed", key)
    require(layout(out.instructions), "a run of local gates was not merged", key)
    require(describe(out.instructions) == describe(circ.instructions) or "again" in prog or not ordered(circ, out), "gates on several lines changed", key)
    rec.trace()
    rec.step(len(prog))
    rec.state(ref.canon(got, 4))


def ordered(circ, out):
    """False when the other gates are at least the same, each line seeing them in the same order."""
    for q in range(len(circ.dimensions)):
        a = [d for g, d in zip([g for g in circ.instructions if len(g.reference_lines) > 1], describe(circ.instructions)) if q in g.reference_lines]
        b = [d for g, d in zip([g for g in out.instructions if len(g.reference_lines) > 1], describe(out.instructions)) if q in g.reference_lines]
        if a != b:
            return True
    return False
