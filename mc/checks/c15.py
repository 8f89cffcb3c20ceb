"""C15: the per-line view of a circuit (lanes) shows every line's gates in order and rebuilds an equivalent circuit."""
from __future__ import annotations

import itertools

import numpy as np

from mc import comp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C15"
RULE = ("every circuit of up to depth instructions from a menu of local, two-qudit and three-qudit gates (also the same gate "
        "object again) on 3 lines: lanes, groups of consecutive local gates, next-is-local and the rebuilt circuit compared with a "
        "per-line reference; every run replacement in every lane, and every pair of replacements, compared as operators")
BOUNDS = {"quick": "circuits of up to 5 instructions on [2,3,2], one replacement up to 4 instructions, two up to 3", "thorough": "circuits of up to 6, two replacements up to 4"}
DIMS = [2, 3, 2]
MENU = [["h", [0], None, None, False], ["r", [1], [0, 2, 0.7, 0.4], None, True], ["x", [2], None, None, False], ["csum", [0, 1], None, None, False],
        ["cx", [2, 0], [0, 1, 1, 0.6], None, False], ["cu_two", [1, 2], "u1", None, True], ["cu_multi", [0, 1, 2], "u1", None, False], "again", "again2"]
NEW = {0: ["r", [0], [0, 1, 1.3, 0.2], None, False], 1: ["cu_one", [1], "u1", None, False], 2: ["rz", [2], [0, 1, 0.9], None, False]}


def cases(tier, seed):
    deep = tier == "thorough"
    depth = 6 if deep else 5
    yield {"pre": [], "depth": 1, "one": 4, "two": 4 if deep else 3}
    for a, b in itertools.product(range(7), range(9)):
        yield {"pre": [a, b], "depth": depth, "one": 4, "two": 4 if deep else 3}
    for a in range(7):
        yield {"long": a}


def long_programs(a):
    for b in range(7):
        x, y = MENU[a], MENU[b]
        yield [*[x] * 9, y, *[x] * 12, y, y, x], 1
        yield [x, y] * 70, 0


def make(prog):
    """(circuit, list of (spec, matrix)); 'again' repeats the previous object, 'again2' the one before."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    circ = QuantumCircuit(3, list(DIMS), 0)
    specs = []
    for s in prog:
        if isinstance(s, str):
            back = -1 if s == "again" else -2
            if len(specs) < -back:
                return None, None
            circ.set_instructions([*circ.instructions, circ.instructions[back]])
            specs.append(specs[back])
        else:
            G.put(circ, s)
            specs.append(s)
    return circ, specs


MATS: dict = {}


def mat(s):
    k = repr(s)
    if k not in MATS:
        MATS[k] = G.ref_full(s, DIMS)
    return MATS[k]


def total(specs):
    u = np.eye(12, dtype=complex)
    for s in specs:
        u = mat(s) @ u
    return u


def check(case, rec):
    from mqt.qudits.core.lanes import Lanes

    if "long" in case:
        for prog, n in long_programs(case["long"]):
            circ, specs = make(prog)
            views(Lanes(circ), circ, specs, f"{prog}" if n else f"{prog[:2]} * 70", rec)
            if n:
                edits(prog, n, rec)
        return
    for k in range(case["depth"] - len(case["pre"]) + 1):
        for rest in itertools.product(MENU, repeat=k):
            prog = [*(MENU[i] for i in case["pre"]), *rest]
            circ, specs = make(prog)
            if circ is None:
                continue
            views(Lanes(circ), circ, specs, f"{prog}", rec)
            n = 0 if len(prog) > case["one"] else 1 if len(prog) > case["two"] else 2
            if n:
                edits(prog, n, rec)


def lane_of(specs, q):
    return [i for i, s in enumerate(specs) if q in s[1]]


def views(lanes, circ, specs, key, rec):
    gates = list(circ.instructions)
    back = lanes.extract_instructions()
    require(len(back) == len(gates), f"{len(back)} instructions rebuilt from {len(gates)}", key)
    same_order(back, gates, key)
    for q in range(3):
        want = [gates[i] for i in lane_of(specs, q)]
        if not want:
            continue
        got = lanes.extract_lane(q)
        require([id(g) for g in got] == [id(g) for g in want], f"lane {q} wrong", key)
        groups = []
        for i in lane_of(specs, q):
            local = len(specs[i][1]) == 1
            if local and groups and groups[-1][0]:
                groups[-1][1].append(id(gates[i]))
            else:
                groups.append((local, [id(gates[i])]))
        view = [[id(t[1]) for t in grp] for grp in lanes.consecutive_view[q]]
        require(view == [g for _, g in groups], f"groups of line {q} wrong", key)
    for g in {id(x): x for x in gates}.values():
        if len(g.reference_lines) > 1:
            continue
        q = g.target_qudits
        lane = lane_of(specs, q)
        after = []
        for pos, i in enumerate(lane):
            if gates[i] is g:
                after.append(pos + 1 < len(lane) and len(specs[lane[pos + 1]][1]) == 1)
        require(lanes.next_is_local(g) == all(after), f"next_is_local of {g.qasm_tag} on line {q} is {lanes.next_is_local(g)}", key)
    rec.trace()
    rec.step(len(specs))
    rec.state(tuple(repr(s) for s in specs) + (len(set(map(id, gates))),))


def same_order(back, gates, key):
    for q in range(3):
        a = [id(g) for g in gates if q in g.reference_lines]
        b = [id(g) for g in back if q in g.reference_lines]
        require(a == b, f"rebuilt circuit has another order on line {q}", key)


def runs(specs, q):
    """Every [start, end] range of consecutive local gates in lane q (lane positions)."""
    lane = lane_of(specs, q)
    out = []
    for i in range(len(lane)):
        for j in range(i, len(lane)):
            if len(specs[lane[j]][1]) > 1:
                break
            out.append((i, j))
    return out


def edits(prog, n, rec):
    from mqt.qudits.core.lanes import Lanes

    _, specs0 = make(prog)
    todo = [([], specs0)]
    for _ in range(n):
        nxt = []
        for trail, specs in todo:
            for q in range(3):
                for i, j in runs(specs, q):
                    lane = lane_of(specs, q)
                    new = [s for p, s in enumerate(specs) if p not in lane[i:j + 1]]
                    at = sum(1 for p in range(lane[i]) if p not in lane[i:j + 1])
                    new = [*new[:at], NEW[q], *new[at:]]
                    nxt.append(([*trail, (q, i, j)], new))
        for trail, new in nxt:
            circ, _ = make(prog)
            lanes = Lanes(circ)
            for q, i, j in trail:
                fresh = G.build(DIMS, [NEW[q]]).instructions[0]
                lanes.replace_gates_in_lane(q, i, j, fresh)
            key = f"{prog} replace {trail}"
            out = lanes.extract_instructions()
            require(len(out) == len(new), f"{len(out)} instructions, expected {len(new)}", key)
            got = comp.operator(type("C", (), {"dimensions": DIMS, "instructions": out})())
            require(ref.same(got, total(new), 1e-7), "rebuilt circuit wrong after a replacement", key)
            rec.trace()
            rec.step(len(trail))
        todo = nxt
