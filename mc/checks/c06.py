"""C06: malformed requests are refused, leave the circuit as it was, and never run as something else."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import Violation, require

PROPERTY = "C06"
RULE = ("every register shape x history prefix x request from a grid that contains every boundary value of every "
        "argument (line -1..n, level -1..d, equal levels, angle just outside its range, wrong lengths, overlapping or "
        "repeated or incomplete controls, taken register names), legal and illegal; the legality oracle is independent; "
        "an illegal request must raise at the call or at the first use, leaving the circuit as it was, "
        "and a legal one must be accepted")
BOUNDS = {"quick": "register shapes of 1..3 lines with dims 2..4; all argument combinations on the grid; 2 histories",
          "thorough": "18 register shapes with dims 2..6"}
TWO_PI = 2 * math.pi


def cases(tier, seed):
    for d in range(2, 50):
        yield {"dims": [d], "pre": 0, "kind": "line"}
    shapes = [[2], [3], [4], [3, 2], [2, 4], [3, 3], [2, 3, 4], [4, 2, 2]]
    if tier == "thorough":
        shapes += [[5], [6], [2, 2], [5, 3], [3, 5], [6, 2], [2, 2, 2], [3, 2, 3], [2, 5, 2], [4, 4]]
    for dims in shapes:
        for pre in (0, 2):
            for kind in KINDS:
                yield {"dims": dims, "pre": pre, "kind": kind}


def levels(d):
    return list(range(-1, d + 2))


def requests(kind, dims):
    """Yield (description, call(circ), legal, deferred) — deferred: refusing at first use is also fine."""
    n = len(dims)
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData

    if kind == "line":
        for q in range(-2, n + 2):
            ok = 0 <= q < n
            for nm in ("x", "z", "h"):
                yield f"{nm}({q})", (lambda c, q=q, nm=nm: getattr(c, nm)(q)), ok, True
        for q in range(n):
            yield f"s({q})", (lambda c, q=q: c.s(q)), all(dims[q] % k for k in range(2, dims[q])), False
    elif kind in {"r", "rz", "rh", "noisex", "noisey"}:
        tail = {"r": [0.3, 0.2], "rz": [0.3]}.get(kind, [])
        for q in range(n):
            d = dims[q]
            for a, b in itertools.product(levels(d), repeat=2):
                ok = 0 <= a < d and 0 <= b < d and a != b
                yield f"{kind}({q},[{a},{b}])", (lambda c, q=q, a=a, b=b: getattr(c, kind)(q, [a, b, *tail])), ok, False
            for params in ([0], [0, 1, *tail, 0], [0, 1, *tail, 0.5]):
                yield f"{kind}({q},{params})", (lambda c, q=q, params=params: getattr(c, kind)(q, params)), False, False
            if kind in {"r", "rz"}:
                yield f"{kind} short", (lambda c, q=q: getattr(c, kind)(q, [0, 1, 0.3, 0.2][:1 + len(tail)])), False, False
                yield f"{kind} level type", (lambda c, q=q: getattr(c, kind)(q, [0.5, 1, *tail])), False, False
    elif kind == "virtrz":
        for q in range(n):
            for a in levels(dims[q]):
                ok = 0 <= a < dims[q]
                yield f"virtrz({q},{a})", (lambda c, q=q, a=a: c.virtrz(q, [a, 0.3])), ok, False
                yield f"virtrz({q},{a},1)", (lambda c, q=q, a=a: c.virtrz(q, [a, 1])), ok, False
                yield f"noisez({q},{a})", (lambda c, q=q, a=a: c.noisez(q, a)), ok, False
            for params in ([0], [0, 0.3, 0.1], [], [0.5, 0.3]):
                yield f"virtrz({q},{params})", (lambda c, q=q, params=params: c.virtrz(q, params)), False, False
    elif kind == "pm":
        for q in range(n):
            d = dims[q]
            if d > 4:
                continue
            for p in itertools.product(range(-1, d + 1), repeat=d):
                ok = sorted(p) == list(range(d))
                yield f"pm({q},{list(p)})", (lambda c, q=q, p=p: c.pm(q, list(p))), ok, False
            yield f"pm({q}) short", (lambda c, q=q, d=d: c.pm(q, list(range(d - 1)))), False, False
            yield f"pm({q}) long", (lambda c, q=q, d=d: c.pm(q, list(range(d + 1)))), False, False
    elif kind == "cu":
        sizes = sorted({*dims, *(a * b for a in dims for b in dims), int(np.prod(dims)), 1})
        for q, m in itertools.product(range(n), sizes):
            yield f"cu_one({q}) size {m}", (lambda c, q=q, m=m: c.cu_one(q, np.eye(m, dtype=complex))), m == dims[q], True
        for (a, b), m in itertools.product(itertools.product(range(n), repeat=2), sizes):
            yield (f"cu_two([{a},{b}]) size {m}", (lambda c, a=a, b=b, m=m: c.cu_two([a, b], np.eye(m, dtype=complex))),
                   a != b and m == dims[a] * dims[b], True)
        def bad(m):
            """Things of the right size which are no matrix of numbers of that shape."""
            eye = np.eye(m, dtype=complex)
            return (("nested lists", eye.tolist()), ("texts", eye.astype(str)), ("flat", eye.reshape(-1)), ("a stack", eye[None]),
                    ("a scalar", 1.0), ("text", "identity"), ("a rectangle", np.eye(m, m + 1, dtype=complex)), ("half", eye[: m // 2]))

        good = ((np.eye, "real"), (lambda m: np.eye(m, dtype=int), "integer"), (lambda m: np.eye(m, dtype=np.complex64), "single precision"))
        whole = int(np.prod(dims))
        for what, m in bad(dims[0]):
            yield f"cu_one from {what}", (lambda c, m=m: c.cu_one(0, m)), False, True
        for make, what in good:
            yield f"cu_one {what}", (lambda c, make=make: c.cu_one(0, make(dims[0]))), True, False
        if n > 1:
            for what, m in bad(dims[0] * dims[1]):
                yield f"cu_two from {what}", (lambda c, m=m: c.cu_two([0, 1], m)), False, True
            for make, what in good:
                yield f"cu_two {what}", (lambda c, make=make: c.cu_two([0, 1], make(dims[0] * dims[1]))), True, False
            for what, m in bad(whole):
                yield f"cu_multi from {what}", (lambda c, m=m: c.cu_multi(list(range(n)), m)), False, True
            for make, what in good:
                yield f"cu_multi {what}", (lambda c, make=make: c.cu_multi(list(range(n)), make(whole))), True, False
        if n > 1:
            for ls in itertools.product(range(-1, n + 1), repeat=3):
                m = int(np.prod([dims[q] if 0 <= q < n else 2 for q in ls]))
                ok = len(set(ls)) == 3 and all(0 <= q < n for q in ls)
                yield f"cu_multi({list(ls)})", (lambda c, ls=ls, m=m: c.cu_multi(list(ls), np.eye(m, dtype=complex))), ok, True
        if n == 3:
            for m in sizes:
                yield (f"cu_multi size {m}", (lambda c, m=m: c.cu_multi([0, 1, 2], np.eye(m, dtype=complex))),
                       m == int(np.prod(dims)), True)
    elif kind == "pair":
        for a, b in itertools.product(range(-1, n + 1), repeat=2):
            ok = 0 <= a < n and 0 <= b < n and a != b
            yield f"csum([{a},{b}])", (lambda c, a=a, b=b: c.csum([a, b])), ok, True
            for nm, good in (("ms", [0.5]), ("ls", [0.5]), ("cx", [0, 1, 1, 0.5])):
                for params in (good[:-1], [*good, 0.5]):
                    yield f"{nm}([{a},{b}],{params})", (lambda c, a=a, b=b, nm=nm, params=params: getattr(c, nm)([a, b], params)), False, True
            for ang in (-0.001, 0.0, 0.5, TWO_PI, TWO_PI + 0.001):
                good = ok and 0 <= ang <= TWO_PI
                for nm in ("ms", "ls"):
                    yield f"{nm}([{a},{b}],{ang})", (lambda c, a=a, b=b, ang=ang, nm=nm: getattr(c, nm)([a, b], [ang])), good, True
                yield f"cx([{a},{b}],{ang})", (lambda c, a=a, b=b, ang=ang: c.cx([a, b], [0, 1, 1, ang])), good, True
            if ok:
                for la, lb in itertools.product(range(-1, dims[b]), repeat=2):
                    yield f"cx([{a},{b}],levels {la},{lb})", (lambda c, a=a, b=b, la=la, lb=lb: c.cx([a, b], [la, lb, 0, 0.1])), 0 <= la < lb, True
                yield f"cx([{a},{b}],level above)", (lambda c, a=a, b=b: c.cx([a, b], [0, dims[b], 0, 0.1])), False, True
    elif kind == "ctl":
        for q in range(n):
            for i in range(-1, n + 1):
                for lv in range(-1, 6):
                    ok = 0 <= i < n and i != q and 0 <= lv < dims[i]
                    yield f"x({q}) ctl {i}@{lv}", (lambda c, q=q, i=i, lv=lv: c.x(q, ControlData([i], [lv]))), ok, True
                    yield f"r({q}) ctl {i}@{lv}", (lambda c, q=q, i=i, lv=lv: c.r(q, [0, 1, 0.3, 0.2], ControlData([i], [lv]))), ok, True
            if n > 1:
                for i, j in itertools.product(range(n), repeat=2):
                    for li, lj in itertools.product(range(4), repeat=2):
                        ok = len({i, j, q}) == 3 and li < dims[i] and lj < dims[j]
                        yield f"z({q}) ctl {i}@{li},{j}@{lj}", (lambda c, q=q, i=i, j=j, li=li, lj=lj: c.z(q, ControlData([i, j], [li, lj]))), ok, True
                o = (q + 1) % n
                yield f"x({q}) ctl extra level", (lambda c, q=q, o=o: c.x(q, ControlData([o], [0, 1]))), False, False
                if n > 2:
                    yield f"x({q}) ctl missing level", (lambda c, q=q, o=o: c.x(q, ControlData([o, (q + 2) % n], [0]))), False, False
    elif kind == "latectl":
        if n > 1:
            for q in range(n):
                for i in range(-1, n + 1):
                    for lv in range(-1, 6):
                        ok = 0 <= i < n and i != q and 0 <= lv < dims[i]
                        yield f"attach {i}@{lv} to gate on {q}", (q, [i], [lv]), ok, False
                o = (q + 1) % n
                yield f"attach twice {o} to gate on {q}", (q, [o, o], [0, 1]), False, False
                yield f"attach extra level to gate on {q}", (q, [o], [0, 1]), False, False
    elif kind == "reg":
        from mqt.qudits.quantum_circuit.components.quantum_register import QuantumRegister

        for label in ("q", "w", "fresh"):  # the circuit has q and then w
            for size, dd in ((1, [2]), (2, [2, 3]), (2, [2]), (1, None), (3, [2, 2])):
                ok = label == "fresh" and (dd is None or len(dd) >= size)
                yield f"register {label} {size} {dd}", (lambda c, label=label, size=size, dd=dd: c.append(QuantumRegister(label, size, dd))), ok, False


KINDS = ["line", "r", "rz", "rh", "noisex", "noisey", "virtrz", "pm", "cu", "pair", "ctl", "latectl", "reg"]


def snapshot(c):
    return ([(g.qasm_tag, g.target_qudits if not isinstance(g.target_qudits, list) else tuple(g.target_qudits), g.dagger,
              tuple(g.reference_lines), repr(g.control_info["controls"]), g.gate_type.name, bool(g.is_long_range)) for g in c.instructions],
            c.number_gates, list(c.dimensions), c.num_qudits, [(r.label, r.size, list(r.dimensions), [r[i] for i in range(r.size)]) for r in c.quantum_registers],
            c.to_qasm().count("\n"))


def check(case, rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    dims = case["dims"]
    n = len(dims)

    def fresh():
        c = QuantumCircuit(n, list(dims), 0)
        if case["pre"]:
            c.x(0)
            c.h(n - 1).dag()
        if case["kind"] == "reg":
            from mqt.qudits.quantum_circuit.components.quantum_register import QuantumRegister

            c.append(QuantumRegister("w", 1, [2]))
        return c

    for desc, call, legal, deferred in requests(case["kind"], dims):
        key = f"{dims} after {case['pre']} gates: {desc}"
        c = fresh()
        before = None
        target = None
        if case["kind"] == "latectl":
            q, idx, lv = call
            target = c.rz(q, [0, 1, 0.4])
            m0 = target.to_matrix(2)
            call = lambda c, idx=idx, lv=lv: target.control(idx, lv)  # noqa: E731
        before = snapshot(c)
        rec.step()
        rec.trace()
        try:
            call(c)
            err = None
        except Exception as e:  # noqa: BLE001
            err = e
        if err is not None:
            rec.state((dims, case["kind"], desc, "refused"))
            if legal:
                rec.finding(key, f"a legal request was refused: {type(err).__name__}: {err}")
            elif snapshot(c) != before:
                rec.finding(key, f"refused ({type(err).__name__}) but the circuit changed\n{before}\n{snapshot(c)}")
            elif target is not None and not np.array_equal(target.to_matrix(2), m0):
                rec.finding(key, "refused but the gate changed")
            continue
        rec.state((dims, case["kind"], desc, "accepted"))
        if legal:
            try:
                if dims and int(np.prod(c.dimensions)) <= 64 and n:
                    s = c.simulate()
                    require(abs(np.linalg.norm(s) - 1) < 1e-6, "legal request gives a state of wrong norm", key)
                for g in c.instructions:
                    m = g.to_matrix(2)
                    require(ref.same(m @ m.conj().T, np.eye(len(m)), 1e-7), "legal request gives a non-unitary operator", key)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                rec.finding(key, f"legal request cannot be used: {type(e).__name__}: {e}")
            continue
        if not deferred:
            rec.finding(key, "an illegal request was accepted")
            continue
        try:
            c.simulate()
        except Exception:  # noqa: BLE001
            rec.count("refused_at_first_use")
            continue
        rec.finding(key, "an illegal request was accepted and simulated")
