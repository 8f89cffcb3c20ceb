"""C09: the logical single-qudit passes replace every single-qudit gate by an equivalent sequence and nothing else."""
from __future__ import annotations

import itertools

import numpy as np

from mc import comp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C09"
RULE = ("every gate of a menu (all levels pairs, all permutations, generic, diagonal, sparse, adjoint) x every level graph "
        "(all connected graphs) x both logical passes; every history of up to depth gates and passes on one device, including "
        "phases left in the graph by an adaptive physical pass; the emitted circuit's operator is compared with the reference")
BOUNDS = {"quick": "d=2..4 all graphs, d=5 every 81st graph for QR, adaptive on path and star; menu depth 1; d=3 circuits of 2 gates on 2 lines with an entangling gate; histories of 2 compilations; all pairs of near-identical gates on [3], half of them on [3,3]",
          "thorough": "also d=6, circuits of 3 gates, histories of 3 compilations"}
TOL = {"qr": 1e-5, "ada": 6e-4, "phyada": 6e-4, "phyada+": 6e-4}  # the adaptive passes stop at 1e-4


def cases(tier, seed):
    deep = tier == "thorough"
    for d in (2, 3, 4, 5) + ((6,) if deep else ()):
        n = len(comp.single_menu(d))
        for p in ("qr", "ada"):
            for i in range(0, n, 6):
                yield {"kind": "single", "d": d, "pass": p, "lo": i, "tier": tier}
    for dims in [[3, 2], [2, 3]] + ([[3, 4]] if deep else []):
        for p in ("qr", "ada"):
            for first in range(len(circuit_menu(dims))):
                yield {"kind": "circuit", "dims": dims, "pass": p, "first": first, "depth": 3 if deep else 2}
    for dims in [[3], [3, 3]]:
        for p in ("qr", "ada"):
            for lo in range(0, len(G.twin_programs(dims, 1, len(dims))), 40):
                yield {"kind": "twins", "dims": dims, "pass": p, "lo": lo}
    for first in range(len(HIST)):
        yield {"kind": "history", "first": first, "depth": 3 if deep else 2}


def circuit_menu(dims):
    d0, d1 = dims
    out = [["h", [0], None], ["h", [1], None], ["x", [0], None], ["r", [1], [0, d1 - 1, 0.7, 0.4]], ["cu_one", [0], "u1"], ["z", [1], None],
           ["csum", [0, 1], None], ["cu_two", [0, 1], "u1"]]
    return [s + [None, False] for s in out] + [["x", [0], None, [[1, 1]], False]]


HIST = [("qr", "h"), ("ada", "h"), ("phyada", "h"), ("phyada+", "h"), ("qr", "u"), ("ada", "u"), ("phyada+", "u"), ("qr", "z"), ("phyada+", "z")]


def passes(name, device):
    from mqt.qudits.compiler.onedit import LogLocQRPass, PhyLocAdaPass
    from mqt.qudits.compiler.onedit.mapping_un_aware_transpilation.log_local_adaptive_decomp import LogLocAdaPass

    return {"qr": lambda: LogLocQRPass(device), "ada": lambda: LogLocAdaPass(device), "phyada": lambda: PhyLocAdaPass(device),
            "phyada+": lambda: PhyLocAdaPass(device, True)}[name]()


def verify(device, pname, dims, specs, key, rec, check_graph=True):
    circ = G.build(dims, specs)
    before = comp.snapshot(circ)
    graphs = [(comp.placement(g), comp.physical_edges(g)) for g in device.energy_level_graphs]
    out = passes(pname, device).transpile(circ)
    require(comp.snapshot(circ) == before, "compiling modified the given circuit", key)
    want = G.ref_circuit(specs, dims)
    got = G.implemented_unitary(out)
    rec.step(len(out.instructions))
    rec.trace()
    comp.same_gate_meaning(got, want, TOL[pname], key)
    require(out.dimensions == dims and out.number_gates == len(out.instructions), "bookkeeping of the compiled circuit", key)
    if check_graph:
        now = [(comp.placement(g), comp.physical_edges(g)) for g in device.energy_level_graphs if g is not None]
        require(now == graphs, "a logical pass changed the device's level graph", key)
    # gates on several lines are untouched and in order
    multi = [s for s in specs if len(s[1]) > 1 or s[3]]
    kept = [g for g in out.instructions if isinstance(g.target_qudits, list) or g.control_info["controls"] is not None]
    require(len(kept) == len(multi), "gates on several lines changed", key)
    for s, g in zip(multi, kept):
        require(ref.same(g.to_matrix(2), G.ref_full(s, dims)), "a gate on several lines changed", key)
    for g in out.instructions:
        if g not in kept:
            require(type(g).__name__ in {"R", "VirtRz", "Rz"}, f"{type(g).__name__} emitted", key)
    rec.state((dims, pname, ref.canon(got, 3)))


def check(case, rec):
    if case["kind"] == "single":
        d = case["d"]
        menu = comp.single_menu(d)[case["lo"]:case["lo"] + 6]
        graphs = comp.connected_graphs(d) if d <= 4 else comp.connected_graphs(d)[:: 81 if d == 5 else 4000]
        if d == 4 and case["pass"] == "ada":
            graphs = graphs[::6] if case["tier"] == "quick" else graphs
        if d >= 5 and case["pass"] == "ada":
            graphs = [[[i, i + 1] for i in range(d - 1)], [[0, i] for i in range(1, d)]]
            menu = [s for s in menu if s[0] != "cu_one" and s[0] != "h"] if d == 6 else menu
        for spec in menu:
            for es in graphs:
                mapping = list(range(d))
                verify(comp.Device([comp.level_graph(d, es, mapping)]), case["pass"], [d], [spec], f"{case['pass']} d={d} edges={es} {spec}", rec)
    elif case["kind"] == "twins":
        dims = case["dims"]
        for specs in G.twin_programs(dims, 1, len(dims))[case["lo"]:case["lo"] + 40]:
            dev = comp.Device([comp.level_graph(d, [[i, i + 1] for i in range(d - 1)], list(range(d))) for d in dims])
            verify(dev, case["pass"], dims, specs, f"{case['pass']} {dims} {specs}", rec)
    elif case["kind"] == "circuit":
        dims = case["dims"]
        menu = circuit_menu(dims)
        for k in range(case["depth"]):
            for rest in itertools.product(menu, repeat=k):
                specs = [menu[case["first"]], *rest]
                dev = comp.Device([comp.level_graph(d, [[i, i + 1] for i in range(d - 1)], list(range(d))) for d in dims])
                verify(dev, case["pass"], dims, specs, f"{case['pass']} {dims} {specs}", rec)
    else:
        for k in range(1, case["depth"]):
            for rest in itertools.product(range(len(HIST)), repeat=k):
                hist = [HIST[case["first"]], *[HIST[i] for i in rest]]
                if hist[-1][0].startswith("phyada"):
                    continue
                for es in ([[0, 1], [1, 2]], [[0, 1], [0, 2]]):
                    history(hist, es, rec)


SPEC = {"h": ["h", [0], None, None, False], "u": ["cu_one", [0], "u1", None, False], "z": ["z", [0], None, None, False]}


def history(hist, es, rec):
    """A device whose graph was used by other passes before: a logical pass still implements its gate (up to phases
    pending in the graph, which it may emit or leave pending)."""
    dev = comp.Device([comp.level_graph(3, es, [0, 1, 2])])
    key = f"history {hist} edges={es}"
    for pname, g in hist:
        spec = SPEC[g]
        circ = G.build([3], [spec])
        pending = [graph_phase(dev.energy_level_graphs[0], n) for n in range(3)]
        try:
            out = passes(pname, dev).transpile(circ)
        except Exception as e:  # noqa: BLE001
            require(False, f"{pname} fails on a device used before: {type(e).__name__}: {e}", key)
        require(dev.energy_level_graphs[0] is not None, "the device lost its level graph", key)
        rec.step(len(out.instructions))
        rec.trace()
        if pname.startswith("phyada"):
            continue
        left = [graph_phase(dev.energy_level_graphs[0], n) for n in range(3)]
        used = np.array(pending) - np.array(left)  # phases taken out of the graph have to be in the sequence
        got = G.implemented_unitary(out)
        want = G.ref_full(spec, [3])
        fix = np.diag(np.exp(-1j * used))
        ok = ref.same_up_to_phase(got, want, TOL[pname]) or any(
            ref.same_up_to_phase(got, m, TOL[pname]) for m in (want @ fix, fix @ want, want @ fix.conj(), fix.conj() @ want))
        require(ok, lambda: f"{pname} of {g} after {hist}: wrong operator\n{np.round(got, 3).tolist()}\n{np.round(want, 3).tolist()}", key)
        rec.state((key, ref.canon(got, 3)))


def graph_phase(graph, n):
    return float(graph.nodes[n].get("phase_storage", 0.0)) if graph is not None else 0.0
