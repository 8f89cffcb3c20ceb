"""C10: the physical single-qudit passes implement each gate between placements, using only transitions the device has."""
from __future__ import annotations

import itertools

import numpy as np

from mc import comp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C10"
RULE = ("every connected level graph x every placement of logical on physical levels x every gate of a menu x both physical "
        "passes (adaptive with and without phase propagation); every gate sequence up to the depth on one device with the "
        "placement and pending phases carried along; operator compared as  P_after U P_before^T  up to global phase; "
        "every emitted rotation has to lie on a transition of the graph")
BOUNDS = {"quick": "d=2,3: all graphs and placements, full menu; d=4: all 38 graphs (QR, 12 placements; adaptive on 6 graphs); sequences of 3 gates (d=3) and 2 gates (d=4) from 6 gates, all phase-propagation choices",
          "thorough": "d=4: all 38 graphs x 24 placements (QR), adaptive on all graphs; d=5: 81 graphs; sequences of 4 gates (d=3) and 2 gates (d=4)"}
TOL = 8e-4  # the adaptive pass stops at 1e-4
TOL_QR = 1e-5
MODES = ("qr", "ada", "ada+")


def cases(tier, seed):
    deep = tier == "thorough"
    for d in (2, 3):
        for es in comp.connected_graphs(d):
            for mp in itertools.permutations(range(d)):
                yield {"kind": "single", "d": d, "edges": es, "map": list(mp), "modes": list(MODES), "size": "full"}
    g4 = comp.connected_graphs(4)
    maps4 = list(itertools.permutations(range(4)))
    for k, es in enumerate(g4):
        for j, mp in enumerate(maps4):
            if deep or j % 2:
                yield {"kind": "single", "d": 4, "edges": es, "map": list(mp), "modes": ["qr"], "size": "full" if deep else "small"}
            if (deep and j % 4 == 0) or (k % 7 == 0 and j in (0, 9)):
                yield {"kind": "single", "d": 4, "edges": es, "map": list(mp), "modes": ["ada"], "size": "small"}
    if deep:
        for es in comp.connected_graphs(5)[::9]:
            yield {"kind": "single", "d": 5, "edges": es, "map": [3, 0, 4, 1, 2], "modes": ["qr"], "size": "small"}
    for es in comp.connected_graphs(3):
        for mp in ([0, 1, 2], [0, 2, 1], [1, 2, 0]):
            for first in range(len(seq_menu(3))):
                yield {"kind": "seq", "d": 3, "edges": es, "map": mp, "first": first, "depth": 4 if deep else 3, "tier": tier}
    for es in ([[0, 1], [1, 2], [2, 3]], [[0, 1], [0, 2], [0, 3]], [[0, 2], [0, 3], [1, 2], [1, 3]]):
        for first in range(len(seq_menu(4))):
            yield {"kind": "seq", "d": 4, "edges": es, "map": [0, 2, 1, 3], "first": first, "depth": 2, "tier": tier}


def seq_menu(d):
    out = [["h", [0], None], ["z", [0], None], ["r", [0], [0, d - 1, 0.7, 0.4]], ["r", [0], [0, 1, np.pi, 0.3]],
           ["pm", [0], [*range(1, d), 0]], ["virtrz", [0], [1, 0.6]]]
    return [s + [None, False] for s in out]


def run(device, mode, circ):
    from mqt.qudits.compiler.onedit import PhyLocAdaPass, PhyLocQRPass

    p = PhyLocQRPass(device) if mode == "qr" else PhyLocAdaPass(device, mode == "ada+")
    return p.transpile(circ)


def pending(graph, d):
    return np.array([float(graph.nodes[n].get("phase_storage", 0.0)) for n in range(d)])


def step(device, mode, d, spec, before_edges, key, rec):
    circ = G.build([d], [spec])
    snap = comp.snapshot(circ)
    try:
        out = run(device, mode, circ)
    except Exception as e:  # noqa: BLE001
        require(False, f"{mode}: {type(e).__name__}: {e}", key)
    require(comp.snapshot(circ) == snap, "compiling modified the given circuit", key)
    graph = device.energy_level_graphs[0]
    require(comp.physical_edges(graph) == before_edges, "the device's physical transitions changed", key)
    require(sorted(comp.placement(graph)) == list(range(d)), "the placement is not one-to-one", key)
    for g in out.instructions:
        if type(g).__name__ == "R":
            require(frozenset((g.lev_a, g.lev_b)) in before_edges, lambda: f"rotation on levels {g.lev_a},{g.lev_b}, which the device cannot drive", key)
        else:
            require(type(g).__name__ in {"VirtRz", "Rz"}, f"{type(g).__name__} emitted", key)
    rec.step(len(out.instructions))
    return G.implemented_unitary(out)


def verify_total(v, specs, d, first_map, graph, tol, key, modes, rec):
    u = G.ref_circuit(specs, [d])
    after = comp.perm_matrix(comp.placement(graph))
    before = comp.perm_matrix(first_map)
    ph = np.diag(np.exp(1j * pending(graph, d)))
    comp.same_gate_meaning(v, after @ ph @ u @ before.T, tol, key)
    rec.trace()
    rec.state((key, ref.canon(v, 3)))


def check(case, rec):
    d, es, mp = case["d"], case["edges"], case["map"]
    if case["kind"] == "single":
        for mode in case["modes"]:
            for spec in comp.single_menu(d, case["size"]):
                key = f"{mode} d={d} edges={es} placement={mp} {spec}"
                dev = comp.Device([comp.level_graph(d, es, mp)])
                pe = comp.physical_edges(dev.energy_level_graphs[0])
                v = step(dev, mode, d, spec, pe, key, rec)
                g = dev.energy_level_graphs[0]
                if mode == "qr":
                    require(comp.placement(g) == mp, "the QR pass changed the placement", key)
                if mode != "ada+":
                    require(np.allclose(np.exp(1j * pending(g, d)), 1, atol=1e-3), "phases left pending", key)
                verify_total(v, [spec], d, mp, g, TOL_QR if mode == "qr" else TOL, key, mode, rec)
        return
    menu = seq_menu(d)
    if d == 4 and case["tier"] == "quick":
        menu = menu[1:]  # one generic gate per sequence
    for k in range(1, case["depth"]):
        for rest in itertools.product(menu, repeat=k):
            specs = [seq_menu(d)[case["first"]], *rest]
            for modes in itertools.product(("ada", "ada+"), repeat=k):
                for last in ("ada", "qr"):
                    if last == "qr" and "ada+" in modes[-1:]:
                        continue
                    chain(d, es, mp, specs, [*modes, last], rec)


def chain(d, es, mp, specs, modes, rec):
    key = f"d={d} edges={es} placement={mp} {list(zip(modes, specs))}"
    dev = comp.Device([comp.level_graph(d, es, mp)])
    pe = comp.physical_edges(dev.energy_level_graphs[0])
    v = np.eye(d)
    for mode, spec in zip(modes, specs):
        v = step(dev, mode, d, spec, pe, key, rec) @ v
    verify_total(v, specs, d, mp, dev.energy_level_graphs[0], TOL, key, modes, rec)
