"""C14: moving virtual phases keeps the operator; removing them keeps what is measured."""
from __future__ import annotations

import itertools

import numpy as np

from mc import comp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C14"
RULE = ("every circuit of up to depth instructions from a menu of rotations, virtual phases (all levels), Rz, Z, other local gates, "
        "adjoints, controlled phases and two-qudit gates on 2-line registers: propagation in both directions compared as operators, "
        "removal compared as outcome distribution from the ground state, each alone and one after the other, and through the compiler's pass list")
BOUNDS = {"quick": "depth 4 on [3,2] (13 gates; 7 of them first, depth 3 for the others), depth 5 on a single qutrit (5 gates), depth 3 on [2,3,2]; every gate kind on [3,2,3] depth 2; all pairs of 14 phase angles; all pairs of near-identical gates on [3]", "thorough": "depth 5 on [3,2], depth 7 single qutrit, depth 4 on [2,3,2]"}
TOL = 1e-6


def menu(dims):
    if len(dims) == 1:
        return [["r", [0], [0, 1, 0.7, 0.4], None, False], ["r", [0], [2, 1, np.pi / 2, -0.9], None, True], ["virtrz", [0], [1, 0.5], None, False],
                ["virtrz", [0], [2, 1.9], None, True], ["rz", [0], [0, 2, 0.6], None, False]]
    out = [["r", [0], [0, dims[0] - 1, 0.7, 0.4], None, False], ["r", [0], [1, 0, np.pi / 2, -0.9], None, True], ["virtrz", [0], [0, 0.5], None, False],
           ["virtrz", [1], [1, 1.9], None, True], ["r", [1], [0, 1, 1.1, 0.3], None, False], ["rz", [0], [0, 1, 0.6], None, False],
           ["z", [1], None, None, True], ["h", [0], None, None, False], ["h", [1], None, None, False], ["csum", [0, 1], None, None, False],
           ["cx", [1, 0], [0, 1, 1, 0.6], None, False], ["virtrz", [1], [0, 0.8], [[0, 1]], False], ["rz", [0], [0, 1, 1.3], [[1, 0]], False]]
    if len(dims) > 2:
        out += [["csum", [2, 0], None, None, False], ["h", [2], None, None, False], ["z", [2], None, None, False]]
    return out


def wide():
    """Every kind of gate on a three-line register, for short circuits."""
    dims = [3, 2, 3]
    out = [["rh", [0], [0, 1], None, False], ["rh", [2], [1, 2], None, True], ["x", [0], None, None, False], ["s", [2], None, None, True],
           ["pm", [2], [1, 2, 0], None, False], ["cu_one", [0], "u1", None, False], ["cu_one", [1], "u2", None, True], ["noisex", [0], [0, 1], None, False],
           ["noisey", [2], [0, 2], None, False], ["ms", [0, 2], [0.8], None, False], ["ls", [2, 0], [0.4], None, True],
           ["cu_two", [1, 2], "u1", None, False], ["cu_multi", [0, 1, 2], "u1", None, False], ["csum", [0, 2], None, None, False],
           ["x", [2], None, [[0, 1]], False], ["h", [1], None, None, False], ["virtrz", [2], [1, 0.7], None, False], ["rz", [2], [1, 0, 0.9], None, False],
           ["z", [2], None, None, False], ["virtrz", [0], [0, 1.3], None, True], ["rz", [1], [0, 1, 1.1], None, False],
           ["virtrz", [0], [1, 0.003], None, False], ["r", [0], [1, 2, 0.004, 0.4], None, False]]
    return dims, out


ANGLES = (0.004, -0.0007, 0.05, np.pi / 2, np.pi, -np.pi, 2 * np.pi, 2.5, 3.5, -4.0, 6.28, 7.0, -11.0, 4 * np.pi + 0.3)


def angles(first, deep, rec):
    """A rotation between two phases, for all pairs of phase angles (small, special, beyond a turn) and rotation angles."""
    from mqt.qudits.simulation import MQTQuditProvider

    backend = MQTQuditProvider().get_backend("faketraps3six")
    for b in ANGLES:
        for th in ANGLES if deep else ANGLES[::3]:
            for lv, ph in (((0, 1), 0.4), ((1, 2), ANGLES[first])):
                prog = [["h", [0], None, None, False], ["virtrz", [0], [1, ANGLES[first]], None, False], ["r", [0], [*lv, th, ph], None, False],
                        ["virtrz", [0], [lv[0], b], None, bool(first % 2)], ["r", [0], [0, 2, 0.8, b], None, False], ["rz", [0], [0, 1, th], None, False]]
                want = np.eye(3, dtype=complex)
                for s in prog:
                    want = G.ref_full(s, [3]) @ want
                one(backend, [3], prog, want, rec)


def cases(tier, seed):
    deep = tier == "thorough"
    for first in range(len(ANGLES)):
        yield {"angles": first, "deep": deep}
    for first in range(len(wide()[1])):
        yield {"wide": first, "depth": 3 if deep else 2}
    for dims in [[3], [3, 3]]:
        for lo in range(0, len(G.twin_programs(dims, 1, len(dims))), 40):
            yield {"twins": lo, "dims": dims}
    for first in range(len(menu([3, 2]))):
        yield {"again": first}
        yield {"long": first}
    for dims, depth, pre in (([3, 2], 5 if deep else 4, 2), ([3], 7 if deep else 5, 2), ([2, 3, 2], 4 if deep else 3, 2)):
        m = len(menu(dims))
        yield {"dims": dims, "pre": [], "depth": 1}
        for p in itertools.product(range(m), repeat=pre):
            yield {"dims": dims, "pre": list(p), "depth": depth - (not deep and dims == [3, 2] and p[0] in (1, 4, 5, 6, 10, 12))}


def check(case, rec):
    from mqt.qudits.simulation import MQTQuditProvider

    if "angles" in case:
        return angles(case["angles"], case["deep"], rec)
    if "twins" in case:
        dims = case["dims"]
        backend = MQTQuditProvider().get_backend("faketraps3six")
        for s, t in G.twin_programs(dims, 1, len(dims))[case["twins"]:case["twins"] + 40]:
            for prog in ([s, t, ["r", [0], [0, 2, 0.8, 0.3], None, False]], [["h", [0], None, None, False], s, ["r", [0], [0, 2, 0.8, 0.3], None, False], t]):
                want = np.eye(int(np.prod(dims)), dtype=complex)
                for g in prog:
                    want = G.ref_full(g, dims) @ want
                one(backend, dims, prog, want, rec)
        return
    if "wide" in case:
        dims, m = wide()
        case = {"pre": [case["wide"]], "depth": case["depth"]}
    elif "again" in case:
        return again(case["again"], rec)
    elif "long" in case:
        dims = [3, 2]
        m = menu(dims)
        mats = [G.ref_full(s, dims) for s in m]
        backend = MQTQuditProvider().get_backend("faketraps3six")
        for b in range(len(m)):
            a = case["long"]
            for idx in ([a, b] * 35, [*[a] * 12, b, *[a] * 9, b, 0]):
                want = np.eye(6, dtype=complex)
                for i in idx:
                    want = mats[i] @ want
                one(backend, dims, [m[i] for i in idx], want, rec)
        return
    else:
        dims = case["dims"]
        m = menu(dims)
    mats = [G.ref_full(s, dims) for s in m]
    backend = MQTQuditProvider().get_backend("faketraps3six")
    for k in range(case["depth"] - len(case["pre"]) + 1):
        for rest in itertools.product(range(len(m)), repeat=k):
            idx = [*case["pre"], *rest]
            want = np.eye(int(np.prod(dims)), dtype=complex)
            for i in idx:
                want = mats[i] @ want
            one(backend, dims, [m[i] for i in idx], want, rec)


def again(first, rec):
    """The same gate object at several places of the instruction list."""
    from mqt.qudits.simulation import MQTQuditProvider

    dims = [3, 2]
    m = menu(dims)
    mats = [G.ref_full(s, dims) for s in m]
    backend = MQTQuditProvider().get_backend("faketraps3six")
    for rest in itertools.product(range(len(m)), repeat=2):
        ids = (first, *rest)
        for pat in ((0, 1, 0), (0, 0, 1), (1, 0, 0), (0, 1, 0, 2)):
            if 2 not in pat and rest[1] != 0:
                continue
            want = np.eye(6, dtype=complex)
            for j in pat:
                want = mats[ids[j]] @ want
            one(backend, dims, [m[ids[j]] for j in pat], want, rec, pat)


def one(backend, dims, prog, want, rec, pattern=None):
    from mqt.qudits.compiler.onedit import ZPropagationOptPass, ZRemovalOptPass

    probs = np.abs(want[:, 0]) ** 2
    circ = G.build(dims, prog)
    if pattern:
        g = circ.instructions
        circ.set_instructions([g[pattern.index(j)] for j in pattern])
    snap = comp.snapshot(circ)
    outs = {}
    for back in (True, False):
        key = f"propagate back={back} {dims} {prog}"
        outs[back] = out = ZPropagationOptPass(backend, back).transpile(circ)
        same_register(out, dims, key)
        got = comp.operator(out)
        require(ref.same_up_to_phase(got, want, TOL), lambda: f"operator changed: {[str(g.__qasm__()).strip() for g in out.instructions]}", key)
        rec.trace()
        for kinds in runs(out):
            require(kinds == sorted(kinds, reverse=back), f"phases not moved to one end of a run: {kinds}", key)
    for name, src in (("remove", circ), ("propagate back, remove", outs[True]), ("propagate forward, remove", outs[False])):
        key = f"{name} {dims} {prog}"
        out = ZRemovalOptPass(backend).transpile(src)
        same_register(out, dims, key)
        got = np.abs(comp.operator(out)[:, 0]) ** 2
        require(ref.same(got, probs, TOL), lambda: f"outcome probabilities changed by {np.abs(got - probs).max():.2g}", key)
        rec.trace()
    ends = ZRemovalOptPass(backend).transpile(circ).instructions
    for g in (ends[0], ends[-1]) if ends else ():
        require(type(g).__name__ not in ("VirtRz", "Rz", "Z") or g.control_info["controls"] is not None, "a phase at an end of the circuit was kept", f"remove {dims} {prog}")
    require(comp.snapshot(circ) == snap, "the given circuit was modified", f"{dims} {prog}")
    require(ref.same(comp.operator(circ), want, TOL), "the given circuit's operator was modified", f"{dims} {prog}")
    rec.step(len(prog))
    rec.state(ref.canon(want, 3))


def same_register(out, dims, key):
    require(out.dimensions == dims and out.number_gates == len(out.instructions), "register or bookkeeping changed", key)


def runs(circ):
    """The kinds of the gates in each run of rotations and phases that nothing else interrupts."""
    found = []
    last = None
    for g in circ.instructions:
        kind = type(g).__name__ if type(g).__name__ in ("R", "VirtRz") and g.control_info["controls"] is None else None
        here = kind and g.reference_lines
        if kind and here == last:
            found[-1].append(kind)
        elif kind:
            found.append([kind])
        last = here
    return found
