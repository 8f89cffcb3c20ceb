"""C16: moving logical levels on a level graph moves their data and never the device's transitions."""
from __future__ import annotations

import itertools

import networkx as nx
import numpy as np

from mc import comp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C16"
RULE = ("every connected level graph x placement x ground level: every sequence of swaps, phase updates and phase exchanges up to the depth "
        "compared with a reference model after each step (placement, phases, roles, physical transitions with their sensitivities, distances, "
        "phase gates, the graphs of earlier steps unchanged); every route between two levels compared with the reference permutation")
BOUNDS = {"quick": "2..4 levels: all graphs, 3 placements, 3-step histories (2 steps on 4 levels); routes for all graphs, placements and pairs up to 4 levels", "thorough": "4-step histories (3 steps on 4 levels), routes on 5 levels"}


def cases(tier, seed):
    deep = tier == "thorough"
    for d in (2, 3, 4):
        for es in comp.connected_graphs(d):
            perms = list(itertools.permutations(range(d)))
            for mp in perms[:: max(1, len(perms) // 3)]:
                for init in range(d) if d < 4 or deep else (0, 3):
                    yield {"kind": "swaps", "d": d, "edges": es, "map": list(mp), "init": init, "depth": (3 if d < 4 else 2) + deep}
            for mp in perms if d < 4 or deep else perms[::4]:
                yield {"kind": "routes", "d": d, "edges": es, "map": list(mp)}
    if deep:
        for es in comp.connected_graphs(5)[::3]:
            yield {"kind": "routes", "d": 5, "edges": es, "map": [3, 0, 4, 1, 2]}


class Model:
    """Physical view: where each logical level sits, each logical level's role and phase; transitions between physical levels."""

    def __init__(self, d, es, mp, init):
        self.place = list(mp)
        self.role = ["i" if k == init else "r" for k in range(d)]
        self.phase = [0.0] * d
        self.edges = {frozenset((mp[a], mp[b])): 3 + (a + b) % 2 for a, b in es}

    def copy(self):
        m = Model.__new__(Model)
        m.place, m.role, m.phase, m.edges = list(self.place), list(self.role), list(self.phase), dict(self.edges)
        return m

    def swap(self, a, b):
        for x in (self.place, self.role, self.phase):
            x[a], x[b] = x[b], x[a]

    def dist(self, a, b):
        g = nx.Graph([tuple(e) for e in self.edges])
        return nx.shortest_path_length(g, self.place[a], self.place[b])


def look(graph, m, d, key):
    require(comp.placement(graph) == m.place and graph.log_phy_map == m.place, f"placement {comp.placement(graph)}, expected {m.place}", key)
    phases = [graph.nodes[n]["phase_storage"] for n in range(d)]
    require(np.allclose(phases, m.phase, atol=1e-9), f"phases {phases}, expected {m.phase}", key)
    require([graph.nodes[n]["level"] for n in range(d)] == m.role, "roles of the levels wrong", key)
    got = {frozenset((graph.nodes[a]["lpmap"], graph.nodes[b]["lpmap"])): w["sensitivity"] for a, b, w in graph.edges(data=True)}
    require(got == m.edges, f"physical transitions {got}, expected {m.edges}", key)
    require(graph.fst_inode == m.role.index("i") and (d == 1 or graph.fst_rnode == m.role.index("r")), "ground level wrong", key)
    for a, b in itertools.combinations(range(d), 2):
        require(graph.distance_nodes(a, b) == m.dist(a, b), f"distance of {a},{b}", key)
        if graph.has_edge(a, b):
            require(graph.get_edge_sensitivity(a, b) == m.edges[frozenset((m.place[a], m.place[b]))], "sensitivity of a transition", key)
    for a in range(d):
        want = sum(w for e, w in m.edges.items() if m.place[a] in e)
        require(graph.get_node_sensitivity_cost(a) == want, f"sensitivity of level {a}", key)
        require(graph.is_inode(a) == (m.role[a] == "i") and graph.is_irnode(a) == (m.role[a] == "r"), "role test", key)


def clone(g):
    from mqt.qudits.core import LevelGraph

    out = LevelGraph([(a, b, dict(w)) for a, b, w in g.edges(data=True)], [(n, dict(w)) for n, w in g.nodes(data=True)])
    return out


def check(case, rec):
    if case["kind"] == "routes":
        return routes(case, rec)
    from mqt.qudits.quantum_circuit import QuantumCircuit

    d = case["d"]
    circ = QuantumCircuit(1, [d], 0)
    g0 = comp.level_graph(d, case["edges"], case["map"], [case["init"]])
    g0.phase_storing_setup()
    g0.set_circuit(circ)
    g0.set_qudits_index(0)
    m0 = Model(d, case["edges"], case["map"], case["init"])
    ops = [("swap", a, b) for a, b in itertools.permutations(range(d), 2) if a < b or d < 4] + [("phase", a, v) for a in range(d) for v in (0.7, -2.9)]
    ops += [("exchange", a, b) for a, b in itertools.combinations(range(d), 2)] + [("setup",)]
    level = [((), g0, m0)]
    look(g0, m0, d, f"{case} start")
    for _ in range(case["depth"]):
        nxt = []
        for trail, g, m in level:
            for op in ops:
                key = f"d={d} edges={case['edges']} placement={case['map']} ground={case['init']} {[*trail, op]}"
                g2, m2 = g, m.copy()
                if op[0] == "swap":
                    g2 = g.swap_nodes(op[1], op[2])
                    m2.swap(op[1], op[2])
                    look(g, m, d, key + " (the graph before)")
                else:
                    g2 = clone(g)
                    if op[0] == "phase":
                        g2.nodes[op[1]]["phase_storage"] += op[2]
                        m2.phase[op[1]] += op[2]
                    elif op[0] == "exchange":
                        g2.swap_node_attr_simple(op[1], op[2])
                        m2.phase[op[1]], m2.phase[op[2]] = m2.phase[op[2]], m2.phase[op[1]]
                    else:
                        g2.phase_storing_setup()
                    look(g, m, d, key + " (the graph before)")
                look(g2, m2, d, key)
                g2.set_circuit(circ)
                g2.set_qudits_index(0)
                u = np.eye(d, dtype=complex)
                for v in g2.get_vrz_gates():
                    u = v.to_matrix() @ u
                want = np.eye(d, dtype=complex)
                for n in range(d):
                    want[m2.place[n], m2.place[n]] = np.exp(-1j * m2.phase[n])
                require(ref.same(u, want, 2e-3), "the phase gates do not carry the stored phases", key)
                rec.step()
                rec.trace()
                rec.state((d, tuple(m2.place), tuple(m2.role), tuple(round(p, 3) for p in m2.phase), tuple(sorted(tuple(sorted(e)) for e in m2.edges))))
                nxt.append(((*trail, op), g2, m2))
        level = nxt


def routes(case, rec):
    from mqt.qudits.compiler.onedit.local_operation_swap import cost_calculator
    from mqt.qudits.compiler.onedit.local_operation_swap.swap_routine import route_states2rotate_basic
    from mqt.qudits.quantum_circuit import QuantumCircuit, gates

    d = case["d"]
    circ = QuantumCircuit(1, [d], 0)
    for a, b in itertools.permutations(range(d), 2):
        for theta in (0.7, np.pi):
            key = f"route d={d} edges={case['edges']} placement={case['map']} levels={(a, b)} theta={theta:.2f}"
            g = comp.level_graph(d, case["edges"], case["map"])
            g.phase_storing_setup()
            m = Model(d, case["edges"], case["map"], 0)
            gate = gates.R(circ, "R", 0, [a, b, theta, 0.4], d)
            cost, pulses, after = route_states2rotate_basic(gate, g)
            look(g, m, d, key + " (given graph)")
            require(sorted(comp.placement(after)) == list(range(d)), "placement after routing is not one-to-one", key)
            require(comp.physical_edges(after) == set(m.edges), "routing changed the device's transitions", key)
            require(after.has_edge(a, b), "levels not next to each other after routing", key)
            require(len(pulses) == m.dist(a, b) - 1, f"{len(pulses)} pulses for distance {m.dist(a, b)}", key)
            u = np.eye(d, dtype=complex)
            for p in pulses:
                require(frozenset((p.lev_a, p.lev_b)) in m.edges, f"pulse on {p.lev_a},{p.lev_b}: no such transition", key)
                u = p.to_matrix() @ u
            want = comp.perm_matrix(comp.placement(after)) @ comp.perm_matrix(case["map"]).T
            require(ref.same(np.abs(u), want, 1e-6), "the pulses do not move the levels as the placement says", key)
            total, pulses2, after2, pi_cost, gate_cost = cost_calculator(gate, g, 3)
            require(len(pulses2) == len(pulses) and comp.placement(after2) == comp.placement(after), "the costing routes differently", key)
            require(abs(total - 3 * (pi_cost + gate_cost)) < 1e-12 and abs(pi_cost - cost) < 1e-12, "total cost", key)
            require(cost >= 0 and (cost > 0) == bool(pulses) and gate_cost > 0, "cost of the pulses", key)
            rec.step(len(pulses) + 1)
            rec.trace()
            rec.state((d, a, b, tuple(comp.placement(after)), len(pulses)))
