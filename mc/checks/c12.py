"""C12: compiling a circuit for a shipped backend keeps its meaning, whatever was compiled there before."""
from __future__ import annotations

import itertools

import numpy as np

from mc import comp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C12"
RULE = ("every circuit of up to depth instructions from a menu of local and two-qudit gates x shipped backend x optimisation "
        "level; operator compared with  P_final U P_initial^T  up to global phase; amplitudes through remap_result; "
        "every history of compilations (also refused ones) on one backend compared with a fresh backend; pass lists")
BOUNDS = {"quick": "faketraps2trits [3,3] depth 3 (8-gate menu) / 2 (18-gate menu), faketraps2six [3,3], [3,4] depth 2, [6,6] depth 1, faketraps3six [3,3,3] depth 2, qubits on larger ions depth 2 (right or refused); histories of 3 compilations; 7 pass lists",
          "thorough": "depth 3 with the 18-gate menu on trits and on 2six, [6,6] depth 2, histories of 4"}
TOL = 8e-4
CASE_LIMIT_S = 240
LEVELS = ("O0", "O1", "O2")


def menu(dims, big=True):
    n = len(dims)
    d0, d1 = dims[0], dims[1]
    out = [["h", [0], None], ["r", [0], [0, d0 - 1, 0.7, 0.4]], ["csum", [0, 1], None], ["x", [1], None], ["virtrz", [1], [1, 0.5]],
           ["cx", [1, 0], [0, 1, d1 - 1, 0.6]], ["cu_one", [1], "u1"], ["z", [0], None]]
    if n > 2:
        out += [["cx", [2, 0], [0, 1, 1, 0.6]], ["h", [2], None]]
    out = [s + [None, False] for s in out]
    if big:
        more = [["rz", [0], [0, 1, 0.9]], ["pm", [0], [*range(1, d0), 0]], ["s", [1], None], ["ms", [0, 1], [0.8]], ["ls", [1, 0], [0.4]],
                ["cu_two", [0, 1], "u1"], ["rh", [1], [0, 1]], ["r", [1], [0, 1, np.pi, 0.3]], ["csum", [1, 0], None], ["x", [0], None]]
        out += [s + [None, i % 3 == 0] for i, s in enumerate(more)]
    return out


PASSLISTS = [["PhyLocQRPass", "PhyEntQRCEXPass"], ["PhyEntQRCEXPass", "LocQRPass"], ["PhyLocAdaPass", "PhyEntQRCEXPass"],
             ["LogLocQRPass", "LogEntQRCEXPass"], ["LogEntQRCEXPass"], ["LogLocQRPass"], []]


def cases(tier, seed):
    deep = tier == "thorough"
    plan = [("faketraps2trits", [3, 3], 2, True), ("faketraps2trits", [3, 3], 3, deep), ("faketraps2six", [3, 3], 2, True),
            ("faketraps2six", [3, 4], 2, False), ("faketraps2six", [6, 6], 2 if deep else 1, False), ("faketraps3six", [3, 3, 3], 2, deep),
            ("faketraps2trits", [2, 3], 2, False), ("faketraps3six", [2, 3], 2, False)]
    if deep:
        plan += [("faketraps2six", [3, 3], 3, False), ("faketraps2six", [4, 4], 2, True), ("faketraps2six", [5, 3], 2, True)]
    for be, dims, depth, big in plan:
        m = menu(dims, big)
        for pre in itertools.product(range(len(m)), repeat=depth - 1):
            yield {"kind": "meaning", "backend": be, "dims": dims, "pre": [m[i] for i in pre], "big": big}
    for first in range(9):
        yield {"kind": "three", "first": first, "dims": [3, 3, 3]}
        if deep:
            yield {"kind": "three", "first": first, "dims": [4, 3, 4]}
    for first in range(len(menu([3, 3]))):
        yield {"kind": "long", "first": first}
    for be in ("faketraps2trits", "faketraps2six"):
        for first in range(len(HISTORY)):
            for last in range(len(HISTORY) - 1):
                yield {"kind": "history", "backend": be, "dims": [3, 3], "first": first, "last": last, "depth": 4 if deep else 3, "all": deep or be == "faketraps2trits"}
    for names in PASSLISTS:
        for first in menu([3, 3]):
            yield {"kind": "passes", "names": names, "first": first}
    for lines in (1, 2):
        for lo in range(0, len(twin_specs(lines, deep)), 10):
            yield {"kind": "twins", "lines": lines, "lo": lo, "deep": deep}
    for first in menu([3, 3]):
        yield {"kind": "methods", "first": first}
        if len(first[1]) == 1:
            yield {"kind": "repeated", "first": first}
        for level in LEVELS:
            yield {"kind": "hard", "first": first, "level": level}


def twin_specs(lines, deep):
    return G.twin_programs([3, 3], lines, 1 if deep else 2 * lines + 1)


def backend(name):
    from mqt.qudits.simulation import MQTQuditProvider

    return MQTQuditProvider().get_backend(name)


def compile_at(level, b, circ):
    from mqt.qudits.compiler import QuditCompiler

    return getattr(QuditCompiler(), "compile_" + level)(b, circ)


def start(b, dims):
    return [[lev for lev in comp.placement(b.energy_level_graphs[i]) if lev < d] for i, d in enumerate(dims)]


def judge(b, out, want, ini, dims, key, rec, remap=True):
    got = comp.operator(out)
    fin = out.mappings
    require(fin is not None and [sorted(m) for m in fin] == [list(range(d)) for d in dims], f"final placement {fin} is not a placement", key)
    comp.same_gate_meaning(got, comp.full_perm(fin) @ want @ comp.full_perm(ini).T, TOL, key)
    if remap and all(m[0] == 0 for m in ini):
        from mqt.qudits.visualisation.plot_information import remap_result

        v = got[:, 0]
        p = np.abs(np.asarray(remap_result(np.abs(v) ** 2, out)))
        require(ref.same(p, np.abs(want[:, 0]) ** 2, TOL), "remap_result does not restore the outcome probabilities", key)
        amp = np.asarray(remap_result(v, out)).reshape(-1)
        require(abs(abs(np.vdot(amp, want[:, 0])) - 1) < TOL, "remap_result does not restore the state", key)
    rec.step(len(out.instructions))
    rec.trace()
    rec.state((dims, ref.canon(got, 3)))
    return got


def one(level, b, specs, dims, mats, key, rec, ini=None, strict=True):
    circ = G.build(dims, specs)
    snap = comp.snapshot(circ)
    ini = ini or start(b, dims)
    out = compile_at(level, b, circ)
    require(comp.snapshot(circ) == snap, "compiling modified the given circuit", key)
    want = np.eye(int(np.prod(dims)))
    for s in specs:
        want = mats[repr(s)] @ want
    got = judge(b, out, want, ini, dims, key, rec)
    if strict:
        emitted(b, out, specs, dims, level, key)
    return out, got


def emitted(b, out, specs, dims, level, key):
    """A circuit of local gates becomes pulses on the transitions of the device (and phases)."""
    if any(len(s[1]) > 1 for s in specs) or level == "O2":
        return
    for g in out.instructions:
        name = type(g).__name__
        require(name in ("R", "VirtRz"), f"{name} emitted for local gates", key)
        if name == "R":
            t = g.target_qudits
            graph = b.energy_level_graphs[t]
            ok = frozenset((g.lev_a, g.lev_b)) in comp.physical_edges(graph)
            require(ok, f"R on levels {g.lev_a},{g.lev_b} of line {t}: no such transition", key)


HISTORY = ([["h", [0], None], ["csum", [0, 1], None]], [["r", [0], [0, 2, 0.7, 0.4]], ["x", [1], None]], [["cu_one", [1], "u1"], ["pm", [0], [1, 2, 0]]],
           [["virtrz", [0], [1, 0.5]], ["cx", [1, 0], [0, 1, 2, 0.6]]], "refused")
HISTORY = [h if isinstance(h, str) else [s + [None, False] for s in h] for h in HISTORY]


def check(case, rec):
    k = case["kind"]
    if k == "meaning":
        dims, m = case["dims"], menu(case["dims"], case["big"])
        mats = {repr(s): G.ref_full(s, dims) for s in m}
        for last in m:
            specs = [*case["pre"], last]
            for level in LEVELS:
                if 2 in dims:  # the pulses of a qubit on a larger ion may need levels the register does not have
                    attempt(level, case["backend"], specs, dims, mats, rec)
                    continue
                one(level, backend(case["backend"]), specs, dims, mats, f"{case['backend']} {dims} {level} {specs}", rec)
    elif k == "three":
        dims = case["dims"]
        m = [[*g, q, None] for q in range(3) for g in (("h",), ("cu_one",), ("pm",))]
        m = [{"h": ["h", [q], None], "cu_one": ["cu_one", [q], "u1"], "pm": ["pm", [q], [*range(1, dims[q]), 0]]}[n] + [None, False] for n, q, _ in m]
        mats = {repr(s): G.ref_full(s, dims) for s in m}
        first = m[case["first"]]
        for rest in itertools.product(m, repeat=2):
            if rest[0][1] == rest[1][1] or first[1] not in (rest[0][1], rest[1][1]):
                continue
            for level in LEVELS:
                specs = [first, *rest]
                one(level, backend("faketraps3six"), specs, dims, mats, f"faketraps3six {dims} {level} {specs}", rec)
    elif k == "long":
        dims, m = [3, 3], menu([3, 3])
        mats = {repr(s): G.ref_full(s, dims) for s in m}
        a = m[case["first"]]
        for b in m:
            local = len(a[1]) + len(b[1]) == 2
            specs = [a, b] * (8 if local else 3)
            for level in LEVELS if local else ("O2",):
                one(level, backend("faketraps2trits"), specs, dims, mats, f"faketraps2trits {dims} {level} {specs}", rec)
    elif k == "twins":
        dims = [3, 3]
        for specs in twin_specs(case["lines"], case["deep"])[case["lo"]:case["lo"] + 10]:
            mats = {repr(s): G.ref_full(s, dims) for s in specs}
            for level in LEVELS:
                one(level, backend("faketraps2trits"), specs, dims, mats, f"faketraps2trits {dims} {level} {specs}", rec)
    elif k == "history":
        history(case, rec)
    elif k == "passes":
        passes(case, rec)
    elif k == "methods":
        dims = [3, 3]
        mats = {repr(s): G.ref_full(s, dims) for s in menu(dims)}
        for last in menu(dims, False):
            specs = [case["first"], last]
            for be in ("faketraps2trits", "faketraps2six"):
                ini = start(backend(be), dims)
                for level in ("O0", "O1"):
                    circ = G.build(dims, specs)
                    out = getattr(circ, "compile" + level)(be)
                    judge(None, out, mats[repr(last)] @ mats[repr(case["first"])], ini, dims, f"circuit.compile{level} {be} {specs}", rec)
    elif k == "repeated":
        dims = [3, 3]
        m = menu(dims, False)
        mats = {repr(s): G.ref_full(s, dims) for s in menu(dims)}
        for mid in m[1:4]:
            for last in (m[0], m[2], m[6]):
                repeated(case["first"], mid, last, dims, mats, rec)
    else:
        hard(case, rec)


def repeated(first, mid, last, dims, mats, rec):
    """The same gate object applied twice, with another gate between."""
    for level in LEVELS:
        b = backend("faketraps2trits")
        ini = start(b, dims)
        circ = G.build(dims, [first, mid, last])
        a, c, e = circ.instructions
        circ.set_instructions([a, c, a, e])
        out = compile_at(level, b, circ)
        want = mats[repr(last)] @ mats[repr(first)] @ mats[repr(mid)] @ mats[repr(first)]
        judge(b, out, want, ini, dims, f"same object again {level} {[first, mid, 'again', last]}", rec)


def history(case, rec):
    """All sequences of compilations on one backend object; each has to give what a fresh backend gives."""
    dims, be = case["dims"], case["backend"]
    mats = {repr(s): G.ref_full(s, dims) for h in HISTORY if h != "refused" for s in h}
    ini = start(backend(be), dims)
    fresh = {}
    steps = [(lv, i) for lv in LEVELS for i in range(len(HISTORY))]
    for mid in itertools.product(steps, repeat=case["depth"] - 2):
        last = case["last"]
        for lv in LEVELS:
            for first_level in ("O0", "O2") if case["all"] else ("O2",):
                b = backend(be)
                trail = [(first_level, case["first"]), *mid]
                for level, i in trail:
                    if HISTORY[i] == "refused":
                        refused(b, level, dims)
                    else:
                        compile_at(level, b, G.build(dims, HISTORY[i]))
                    rec.step()
                key = f"history {be} {trail} then {(lv, last)}"
                out, got = one(lv, b, HISTORY[last], dims, mats, key, rec, ini)
                if (lv, last) not in fresh:
                    k2 = compile_at(lv, backend(be), G.build(dims, HISTORY[last]))
                    fresh[lv, last] = (comp.operator(k2), k2.mappings)
                fu, fm = fresh[lv, last]
                require(out.mappings == fm and ref.same(fu, got, 1e-6), "compiled differently from on a fresh backend", key)


def refused(b, level, dims):
    """A circuit whose third gate no pass compiles today; whether and how it is refused does not matter."""
    circ = G.build(dims, [["h", [0], None, None, False], ["r", [0], [0, 2, 0.7, 0.4], None, False], ["pm", [1], [2, 0, 1], None, False],
                          ["x", [1], None, [[0, 1]], False]])
    try:
        compile_at(level, b, circ)
    except Exception:  # noqa: BLE001
        pass


def passes(case, rec):
    from mqt.qudits.compiler import QuditCompiler

    dims, names = [3, 3], case["names"]
    physical = any(n.startswith(("Phy", "LocQR", "LocAda")) for n in names)
    mats = {repr(s): G.ref_full(s, dims) for s in menu(dims)}
    for last in menu(dims):
        specs = [case["first"], last]
        b = backend("faketraps2trits")
        ini = start(b, dims)
        key = f"passes {names} {specs}"
        circ = G.build(dims, specs)
        snap = comp.snapshot(circ)
        out = QuditCompiler().compile(b, circ, list(names))
        require(comp.snapshot(circ) == snap, "compiling modified the given circuit", key)
        want = mats[repr(last)] @ mats[repr(case["first"])]
        if physical:
            judge(b, out, want, ini, dims, key, rec)
        else:
            got = comp.operator(out)
            comp.same_gate_meaning(got, want, TOL, key)
            rec.trace()
            rec.step(len(out.instructions))
            rec.state(ref.canon(got, 3))


def hard(case, rec):
    """Gates with controls and gates on three qudits: compiled right, or refused."""
    dims = [3, 3]
    first, level = case["first"], case["level"]
    mats = {repr(first): G.ref_full(first, dims)}
    for g in (["x", [1], None, [[0, 1]], False], ["h", [0], None, [[1, 2]], False], ["r", [1], [0, 1, 0.7, 0.3], [[0, 0]], False]):
        for specs in ([first, g], [g, first]):
            mats[repr(g)] = G.ref_full(g, dims)
            attempt(level, "faketraps2trits", specs, dims, mats, rec)
    dims = [2, 3, 2]
    tri = [["cu_multi", [0, 1, 2], "u1", None, False], ["x", [1], None, [[0, 1], [2, 1]], False], ["csum", [0, 1], None, [[2, 1]], False]]
    small = ["h", [0], None, None, False]
    for g in tri:
        mats = {repr(s): G.ref_full(s, dims) for s in (g, small)}
        for specs in ([g], [small, g], [g, small]):
            attempt(level, "faketraps3six", specs, dims, mats, rec)


def attempt(level, be, specs, dims, mats, rec):
    try:
        circ = G.build(dims, specs)
        b = backend(be)
        compile_at(level, b, circ)
    except Exception:  # noqa: BLE001
        rec.count("refused")
        return
    one(level, backend(be), specs, dims, mats, f"{be} {dims} {level} {specs}", rec, strict=False)
