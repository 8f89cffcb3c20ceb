"""Shared pieces of the compiler checks: stand-in backends over any level graph, placements, gate menus."""
from __future__ import annotations

import gc
import itertools

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import require


gc.collect = lambda *_a: 0  # the passes force a full collection after every gate; it has no effect on results


class Device:
    """The part of a backend the compiler passes read: one level graph per line."""

    def __init__(self, graphs):
        self.energy_level_graphs = graphs


def connected_graphs(d):
    """All connected labelled graphs on d nodes, as edge lists."""
    pairs = list(itertools.combinations(range(d), 2))
    out = []
    for k in range(d - 1, len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            seen, todo = {0}, [0]
            while todo:
                u = todo.pop()
                for a, b in es:
                    for x, y in ((a, b), (b, a)):
                        if x == u and y not in seen:
                            seen.add(y)
                            todo.append(y)
            if len(seen) == d:
                out.append([list(e) for e in es])
    return out


def level_graph(d, edges, mapping, init=(0,)):
    """edges are between logical levels at the start; mapping[logical] = physical."""
    from mqt.qudits.core import LevelGraph

    return LevelGraph([(a, b, {"delta_m": 0, "sensitivity": 3 + (a + b) % 2}) for a, b in edges], list(range(d)), list(mapping), list(init))


def physical_edges(graph):
    return {frozenset((graph.nodes[a]["lpmap"], graph.nodes[b]["lpmap"])) for a, b in graph.edges}


def placement(graph, d=None):
    """logical level -> physical level, read node by node."""
    return [graph.nodes[n]["lpmap"] for n in sorted(graph.nodes) if d is None or n < d]


def perm_matrix(mapping):
    p = np.zeros((len(mapping), len(mapping)))
    for i, j in enumerate(mapping):
        p[j, i] = 1
    return p


def full_perm(mappings):
    return ref.kron(*[perm_matrix(m) for m in mappings])


def single_menu(d, size="full"):
    """Single-qudit gates with many zero patterns (specs on line 0)."""
    out = [["h", [0], None], ["x", [0], None], ["z", [0], None], ["cu_one", [0], "u1"], ["cu_one", [0], "real"], ["cu_one", [0], "diag"],
           ["cu_one", [0], "perm"], ["cu_one", [0], "id"]]
    if d in (2, 3, 5, 7):
        out.append(["s", [0], None])
    for a, b in itertools.combinations(range(d), 2):
        out += [["r", [0], [a, b, 0.7, 0.4]], ["r", [0], [a, b, np.pi, 0.3]]]
        if size == "full":
            out += [["r", [0], [a, b, np.pi / 2, -np.pi / 2]], ["rz", [0], [a, b, 1.3]], ["rh", [0], [a, b]]]
    if size == "full":
        for a, b in sorted({(0, 1), (0, d - 1), (d - 2, d - 1)}):
            out += [["r", [0], [a, b, t, 0.4]] for t in (0.02, 0.003, -2e-4, np.pi - 0.003)]
    for lv in range(d):
        out.append(["virtrz", [0], [lv, 0.8 + lv]])
    if size == "full":
        out += [["virtrz", [0], [d - 1, 2e-3]], ["virtrz", [0], [0, -2e-3]]]
    perms = list(itertools.permutations(range(d)))
    if size == "full" and d <= 4:
        out += [["pm", [0], list(p)] for p in perms]
    else:
        out += [["pm", [0], list(p)] for p in (perms[1], perms[-1], (*range(1, d), 0), (d - 1, *range(d - 1)))]
    out = [s + [None, False] for s in out]
    if size == "full":
        out += [[*s[:4], True] for s in out if s[0] in {"h", "cu_one", "s", "r"}]
    if size == "sparse":
        out = [s for s in out if s[0] not in {"h", "cu_one"} or s[2] in ("perm", "diag", "id")]
    res = []
    for s in out:
        if s not in res:
            res.append(s)
    return res


def same_gate_meaning(v, u, tol, key, what="the compiled sequence does not implement the gate"):
    require(ref.same_up_to_phase(v, u, tol), lambda: f"{what}\n got {np.round(v, 3).tolist()}\nwant {np.round(u, 3).tolist()}", key)


def snapshot(circ):
    """Everything observable about a circuit, to tell whether a call modified it."""
    return (tuple(circ.dimensions), circ.num_qudits, circ.number_gates, tuple(id(g) for g in circ.instructions),
            tuple((str(g.target_qudits), g.dagger, ref.canon(g.to_matrix(0))) for g in circ.instructions), str(circ.mappings))


_OPS: dict = {}


def operator(circ):
    """Like gates.implemented_unitary, with equal rotations (same class, line, numeric parameters, adjoint) embedded once."""
    dims = tuple(circ.dimensions)
    u = np.eye(int(np.prod(dims)), dtype=complex)
    for g in circ.instructions:
        info = g.control_info
        p = info["params"]
        key = None
        if isinstance(p, list) and all(isinstance(x, (int, float, np.integer, np.floating)) for x in p) and info["controls"] is None:
            key = (dims, type(g).__name__, repr(g.target_qudits), tuple(float(x) for x in p), bool(g.dagger))
        m = _OPS.get(key) if key else None
        if m is None:
            m = g.to_matrix(identities=2)
            if key:
                if len(_OPS) > 20000:
                    _OPS.clear()
                _OPS[key] = m
        u = m @ u
    return u
