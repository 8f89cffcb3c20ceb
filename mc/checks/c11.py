"""C11: the entangling passes replace every two-qudit gate by an equivalent sequence of local rotations and CEx gates."""
from __future__ import annotations

import itertools

import numpy as np

from mc import comp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C11"
RULE = ("every two-qudit gate of a menu (all cx levels, csum, ms, ls, generic/diagonal/sparse matrices, adjoints, both target "
        "orders, neighbouring and distant lines) x registers of mixed dimensions, through the logical pass, and through the "
        "physical pass x level graphs x placements; circuits of up to depth gates mixing them with local gates; operators compared "
        "up to global phase (physical: P U P^T)")
BOUNDS = {"quick": "dims in 2..4 (9 pairs), 3-line registers with the gate on every ordered pair; physical: 2x3 with all placements, 3x3 with 2/5 of them; circuits of 2 gates; all pairs of near-identical two-qudit gates on [2,3], logical and physical",
          "thorough": "dims up to 5, circuits of 3 gates, physical 3x3 with all placements, also 3x4 and 4x4"}
TOL = 2e-5


def gates2(a, b, dims, full=True):
    da, db = dims[a], dims[b]
    out = [["csum", [a, b], None], ["csum", [b, a], None], ["ms", [a, b], [0.8]], ["ms", [b, a], [np.pi / 2]], ["ls", [a, b], [1.1]], ["ls", [b, a], [0.4]]]
    for t, d0, d1 in (([a, b], da, db), ([b, a], db, da)):
        for lev in range(d0):
            for la, lb in itertools.combinations(range(d1), 2):
                for ang in (0.0, 0.6, np.pi / 2) if full else (0.6,):
                    out.append(["cx", t, [la, lb, lev, ang]])
    if full:
        out += [["ms", [a, b], [0.004]], ["ms", [b, a], [0.002]], ["ls", [a, b], [0.003]], ["cx", [a, b], [0, db - 1, da - 1, 0.003]],
                ["cx", [a, b], [0, 1, 0, 6.1]]]
    out += [["cu_two", [a, b], m] for m in ("u1", "diag", "perm", "id", "real")]
    out = [s + [None, False] for s in out]
    return out + [[*s[:4], True] for s in out if s[0] in {"csum", "cu_two", "ms"} or (s[0] == "cx" and s[2][3] == 0.6)]


def cases(tier, seed):
    deep = tier == "thorough"
    pairs = [[2, 2], [2, 3], [3, 2], [3, 3], [2, 4], [4, 2], [3, 4], [4, 3], [4, 4]] + ([[5, 2], [2, 5], [3, 5], [5, 5]] if deep else [])
    for dims in pairs:
        n = len(gates2(0, 1, dims))
        for lo in range(0, n, 4):
            yield {"kind": "log", "dims": dims, "lines": [0, 1], "lo": lo}
    for dims in [[2, 3, 3], [3, 2, 2]] + ([[2, 2, 4], [4, 2, 3]] if deep else []):
        for lines in itertools.combinations(range(3), 2):
            yield {"kind": "log3", "dims": dims, "lines": list(lines)}
            yield {"kind": "controlled", "dims": dims, "lines": list(lines)}
    for dims in [[3, 3], [2, 3]] + ([[3, 4], [4, 4]] if deep else []):
        maps = [list(itertools.permutations(range(d))) for d in dims]
        if max(dims) > 3:
            maps = [m[:: max(1, len(m) // 5)] for m in maps]
        for i, mp in enumerate(itertools.product(*maps)):
            if not deep and dims == [3, 3] and i % 5 not in (0, 2):
                continue
            yield {"kind": "phy", "dims": dims, "maps": [list(m) for m in mp]}
    for lo in range(0, len(G.twin_programs([2, 3], 2)), 20):
        yield {"kind": "twins", "dims": [2, 3], "lo": lo}
    for first in range(len(mix([3, 2]))):
        yield {"kind": "circuit", "dims": [3, 2], "first": first, "depth": 3 if deep else 2}


def mix(dims):
    out = [["h", [0], None], ["r", [1], [0, 1, 0.7, 0.4]], ["csum", [0, 1], None], ["csum", [1, 0], None], ["cx", [0, 1], [0, 1, 1, 0.6]],
           ["cx", [1, 0], [0, 2, 1, 0.6]], ["ms", [0, 1], [0.8]], ["cu_two", [0, 1], "u1"]]
    return [s + [None, dag] for s in out for dag in (False, True)]


def verify(p, dims, specs, want, key, rec, exact_kinds=True, local_menu=("R", "VirtRz", "Rz", "Rh", "Perm")):
    circ = G.build(dims, specs)
    snap = comp.snapshot(circ)
    out = p.transpile(circ)
    require(comp.snapshot(circ) == snap, "compiling modified the given circuit", key)
    got = comp.operator(out) if key.startswith("phy") else G.implemented_unitary(out)
    if not key.startswith("phy"):
        again = G.implemented_unitary(out)
        require(ref.same(got, again), "reading the compiled circuit twice gives two operators", key)
    rec.step(len(out.instructions))
    rec.trace()
    comp.same_gate_meaning(got, want, TOL, key)
    require(out.number_gates == len(out.instructions), "bookkeeping of the compiled circuit", key)
    given = {repr(s[1]) for s in specs if len(s[1]) == 1}
    for g in out.instructions:
        t = g.target_qudits
        if isinstance(t, list):
            require(type(g).__name__ == "CEx" and len(t) == 2, f"{type(g).__name__} on {t} emitted", key)
    rec.state((dims, ref.canon(got, 3), key))
    return out


def check(case, rec):
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass
    from mqt.qudits.compiler.twodit.entanglement_qr.phy_ent_qr_cex_decomp import PhyEntQRCEXPass

    dims, k = case["dims"], case["kind"]
    plain = comp.Device([comp.level_graph(d, [[i, i + 1] for i in range(d - 1)], list(range(d))) for d in dims])
    if k == "log":
        for s in gates2(0, 1, dims)[case["lo"]:case["lo"] + 4]:
            verify(LogEntQRCEXPass(plain), dims, [s], G.ref_full(s, dims), f"log {dims} {s}", rec)
    elif k == "log3":
        for s in gates2(*case["lines"], dims, full=False):
            verify(LogEntQRCEXPass(plain), dims, [s], G.ref_full(s, dims), f"log {dims} {s}", rec)
    elif k == "twins":
        maps = [[1, 0], [2, 0, 1]]
        pm = comp.full_perm(maps)
        for specs in G.twin_programs(dims, 2)[case["lo"]:case["lo"] + 20]:
            want = G.ref_full(specs[1], dims) @ G.ref_full(specs[0], dims)
            verify(LogEntQRCEXPass(plain), dims, specs, want, f"log {dims} {specs}", rec)
            dev = comp.Device([comp.level_graph(d, [[i, i + 1] for i in range(d - 1)], m) for d, m in zip(dims, maps)])
            verify(PhyEntQRCEXPass(dev), dims, specs, pm @ want @ pm.T, f"phy path {dims} placements={maps} {specs}", rec)
    elif k == "controlled":
        controlled(plain, dims, case["lines"], rec)
    elif k == "phy":
        pm = comp.full_perm(case["maps"])
        for shape in ("path", "star"):
            for s in gates2(0, 1, dims, full=False):
                if s[0] == "cu_two" and s[2] in ("real", "id") or (shape == "star" and s[0] == "cx"):
                    continue
                dev = comp.Device([comp.level_graph(d, [[i, i + 1] if shape == "path" else [0, i + 1] for i in range(d - 1)], m) for d, m in zip(dims, case["maps"])])
                edges = [comp.physical_edges(g) for g in dev.energy_level_graphs]
                verify(PhyEntQRCEXPass(dev), dims, [s], pm @ G.ref_full(s, dims) @ pm.T, f"phy {shape} {dims} placements={case['maps']} {s}", rec)
                require([comp.placement(g) for g in dev.energy_level_graphs] == case["maps"], "the placement changed", f"phy {shape} {dims} {case['maps']} {s}")
                require([comp.physical_edges(g) for g in dev.energy_level_graphs] == edges, "the transitions changed", f"phy {shape} {dims} {case['maps']} {s}")
    else:
        menu = mix(dims)
        mats = {repr(s): G.ref_full(s, dims) for s in menu}
        for n in range(case["depth"]):
            for rest in itertools.product(menu, repeat=n):
                specs = [menu[case["first"]], *rest]
                want = np.eye(int(np.prod(dims)))
                for s in specs:
                    want = mats[repr(s)] @ want
                verify(LogEntQRCEXPass(plain), dims, specs, want, f"log {dims} {specs}", rec)


def controlled(plain, dims, lines, rec):
    """Single-qudit gates with one control are two-qudit gates: compiled right, or refused."""
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass

    for c, t in itertools.permutations(lines, 2):
        for lev in range(dims[c]):
            for g in (["x", [t], None, [[c, lev]], False], ["r", [t], [0, 1, 0.7, 0.3], [[c, lev]], False], ["h", [t], None, [[c, lev]], True]):
                key = f"log controlled {dims} {g}"
                circ = G.build(dims, [g])
                try:
                    out = LogEntQRCEXPass(plain).transpile(circ)
                except Exception:  # noqa: BLE001
                    rec.count("refused")
                    continue
                rec.step(len(out.instructions))
                rec.trace()
                got = G.implemented_unitary(out)
                comp.same_gate_meaning(got, G.ref_full(g, dims), TOL, key)
                rec.state((dims, ref.canon(got, 3)))
