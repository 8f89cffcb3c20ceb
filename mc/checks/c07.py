"""C07: exporting a circuit to text and reading it back gives the same circuit."""
from __future__ import annotations

import itertools
import math
import os
import tempfile

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C07"
RULE = ("every register layout x every gate spec (and every ordered pair of the short alphabet) is exported and read "
        "back, as text and through a file; registers, line order, dimensions, instruction count, targets, controls and "
        "the register-wide unitary must survive, and a second export must equal the first; the file-name randomness of "
        "stored matrices is enumerated (fresh key, colliding key)")
BOUNDS = {"quick": "1-3 registers, 1-4 lines, dims 2..5, 1 gate rich alphabet, 2 gates short alphabet",
          "thorough": "1-3 registers, 1-4 lines, dims 2..7, 2 gates rich alphabet on up to 2 lines, 3 gates on 1 line"}
CUSTOM = {"cu_one", "cu_two", "cu_multi"}
LAYOUTS = {
    "quick": [[["q", [3]]], [["q", [2, 3]]], [["field", [4]], ["matter", [2]]], [["q1", [2, 5]], ["q2", [3]]],
              [["a", [3]], ["b_2", [2]], ["c", [2, 2]]], [["q", [2, 2, 3]]]],
}
LAYOUTS["thorough"] = LAYOUTS["quick"] + [[["q", [7]]], [["x", [5, 2]]], [["z", [2]], ["h", [3]]], [["qreg1", [6]], ["meas", [2]]]]


def cases(tier, seed):
    for lay in LAYOUTS[tier]:
        dims = [d for _, ds in lay for d in ds]
        yield {"layout": lay, "kind": "empty"}
        for i in range(len(alpha(dims, True))):
            yield {"layout": lay, "kind": "one", "i": i}
        rich2 = tier == "thorough" and len(dims) <= 2
        if len(dims) <= 3:
            for i in range(len(alpha(dims, rich2))):
                yield {"layout": lay, "kind": "two", "i": i, "rich": rich2}
    for lay in LAYOUTS["quick"][:3]:
        yield {"layout": lay, "kind": "angles"}
        yield {"layout": lay, "kind": "adjoint"}
    for d in ([11, 13] if tier == "quick" else [10, 11, 12, 13, 21]):
        yield {"layout": [["q", [d, 2]]], "kind": "wide"}
        yield {"layout": [["r1", [2]], ["q", [2, d]]], "kind": "wide"}
    for n in ([12] if tier == "quick" else [10, 11, 12, 13]):
        yield {"layout": [["long", [2] * n]], "kind": "many"}
        yield {"layout": [["a", [2] * 2], ["long", [2] * (n - 1)]], "kind": "many"}
    for draws in itertools.product("ab", repeat=2):
        yield {"layout": [["q", [2, 2]]], "kind": "filekey", "draws": draws}


def alpha(dims, rich):
    al = [s for s in G.alphabet(dims, rich) if not s[4]]
    n = len(dims)
    for a, b in itertools.permutations(range(n), 2):
        al.append(["cx", [a, b], [0, 1, 0, math.pi / 3], None, False])
        al.append(["cu_one", [a], "u1", [[b, dims[b] - 1]], False])
        al.append(["rz", [a], [0, 1, -0.4], [[b, 1]], False])
        al.append(["rh", [a], [0, 1], [[b, 1]], False])
    return al


def make(lay):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister

    c = QuantumCircuit()
    for label, ds in lay:
        c.append(QuantumRegister(label, len(ds), list(ds)))
    return c


def compare(orig, back, specs, lay, key, rec):
    dims = [d for _, ds in lay for d in ds]
    require(back.dimensions == dims, lambda: f"dimensions {back.dimensions}", key)
    require(back.num_qudits == len(dims), lambda: f"{back.num_qudits} lines", key)
    require([(r.label, r.size, list(r.dimensions)) for r in back.quantum_registers] == [(lb, len(ds), ds) for lb, ds in lay],
            lambda: f"registers {[(r.label, r.dimensions) for r in back.quantum_registers]}", key)
    require(len(back.instructions) == back.number_gates == len(specs), lambda: f"{len(back.instructions)} instructions read back", key)
    for s, g in zip(specs, back.instructions):
        t = g.target_qudits if isinstance(g.target_qudits, list) else [g.target_qudits]
        require(t == s[1], lambda: f"targets {t}", key)
        want = sorted(map(tuple, s[3] or []))
        got = g.control_info["controls"]
        have = sorted(zip(got.indices, got.ctrl_states)) if got is not None else []
        require(have == want, lambda: f"controls {have}", key)
        require(ref.same(g.to_matrix(2), G.ref_full(s, dims)), lambda: f"gate {s} means something else after reading back", key)
        rec.step()
    rec.trace()
    rec.state((lay, repr(specs)))


def roundtrip(lay, specs, rec, keyname=""):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    key = f"{lay} {specs}{keyname}"
    c = make(lay)
    for s in specs:
        G.put(c, s, "ctor")
    before = [id(g) for g in c.instructions]
    text = c.to_qasm()
    require(text == c.to_qasm(), "export is not repeatable", key)
    if not any(s[0] in CUSTOM for s in specs):
        back = QuantumCircuit()
        back.from_qasm(text)
        compare(c, back, specs, lay, key, rec)
        require(back.to_qasm() == text, lambda: "second export differs:\n" + back.to_qasm() + "\n" + text, key)
        # reading into a circuit that already holds something replaces it
        back.from_qasm(text)
        compare(c, back, specs, lay, key + " reread", rec)
    with tempfile.TemporaryDirectory(dir=".") as d:
        path = c.save_to_file("circ", d)
        require(os.path.exists(path), "file not written", key)
        back = QuantumCircuit()
        back.load_from_file(path)
        compare(c, back, specs, lay, key + " file", rec)
        files = sorted(os.listdir(d))
        require(c.to_qasm() == text and sorted(os.listdir(d)) == files, "a plain export differs after saving to a file", key)
        # saving again beside the first file: both stay readable
        again = c.save_to_file("second", d)
        for p in (path, again):
            back.load_from_file(p)
            compare(c, back, specs, lay, key + " second file", rec)
    require([id(g) for g in c.instructions] == before, "export changed the circuit", key)


def check(case, rec):
    lay = case["layout"]
    dims = [d for _, ds in lay for d in ds]
    k = case["kind"]
    if k == "empty":
        roundtrip(lay, [], rec)
    elif k == "one":
        roundtrip(lay, [alpha(dims, True)[case["i"]]], rec)
    elif k == "two":
        al = alpha(dims, case["rich"])
        for b in al:
            roundtrip(lay, [al[case["i"]], b], rec)
    elif k == "angles":
        d = dims[0]
        for t in [0.0, 1e-5, -1e-7, math.pi, -math.pi / 3, 1 / 3, 12.25, 2 * math.pi, 1.2345678901234567]:
            sp = [["r", [0], [d - 1, 0, t, -t], None, False], ["rz", [0], [0, 1, t], None, False], ["virtrz", [0], [d - 1, t], None, False]]
            if len(dims) > 1 and 0 <= t <= 2 * math.pi:
                sp += [["ms", [0, 1], [t], None, False], ["ls", [1, 0], [t], None, False], ["cx", [1, 0], [0, 1, 1, t], None, False]]
            roundtrip(lay, sp, rec)
    elif k == "wide":
        wide(lay, dims, rec)
    elif k == "many":
        many(lay, dims, rec)
    elif k == "adjoint":
        for s in [["r", [0], [0, 1, 0.7, 0.4], None, True], ["s", [0], None, None, True], ["x", [0], None, None, True],
                  ["rz", [0], [0, 1, 0.4], None, True], ["cu_one", [0], "u1", None, True]]:
            if s[0] == "s" and dims[0] == 4:
                continue
            adjoint(lay, s, dims, rec)
    elif k == "filekey":
        filekey(lay, case["draws"], rec)


def wide(lay, dims, rec):
    """Levels written with more than one digit, everywhere a level can be written."""
    q = dims.index(max(dims))
    d, others = dims[q], [o for o in range(len(dims)) if o != q]
    for lv in range(d):
        sp = [["virtrz", [q], [lv, 0.4], None, False]] + [["x", [o], None, [[q, lv]], False] for o in others]
        if lv:
            sp += [["r", [q], [0, lv, 0.5, 0.2], None, False], ["rz", [q], [lv - 1, lv, 0.5], None, False], ["rh", [q], [lv, 0], None, False]]
        sp += [["cx", [q, o], [0, 1, lv, 0.3], None, False] for o in others] + [["noisez", [q], [lv], None, False]]
        if lv:
            sp += [["cx", [o, q], [lv - 1, lv, 1, 0.3], None, False] for o in others]
        sp.append(["pm", [q], [(k + lv) % d for k in range(d)], None, False])
        roundtrip(lay, sp, rec)
        for s in sp:
            roundtrip(lay, [s], rec)


def many(lay, dims, rec):
    """Line indices with more than one digit, everywhere a line can be written (meaning compared per gate object)."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    n = len(dims)
    c = make(lay)
    want = []
    for a in range(n):
        for b in range(n):
            if a == b:
                c.r(a, [0, 1, 0.1 * (a + 1), 0.2])
                want.append(([a], [], [0, 1, 0.1 * (a + 1), 0.2]))
                continue
            c.csum([a, b])
            want.append(([a, b], [], None))
            c.x(a).control([b], [(a + b) % 2])
            want.append(([a], [(b, (a + b) % 2)], None))
            e = (b + 1) % n
            if e not in (a, b):
                c.x(a).control([b, e], [0, 1])
                want.append(([a], sorted([(b, 0), (e, 1)]), None))
    back = QuantumCircuit()
    back.from_qasm(c.to_qasm())
    require(len(back.instructions) == len(want), f"{len(back.instructions)} of {len(want)} instructions read back", f"many {lay}")
    for g, w in zip(back.instructions, want):
        t = g.target_qudits if isinstance(g.target_qudits, list) else [g.target_qudits]
        cd = g.control_info["controls"]
        have = sorted(zip(cd.indices, cd.ctrl_states)) if cd is not None else []
        require((t, have) == w[:2], f"{w} read back on {t} controls {have}", f"many {lay} {w}")
        if w[2]:
            require(ref.same(g.to_matrix(0), ref.r(2, *w[2])), f"{w} means something else", f"many {lay} {w}")
        rec.step()
    rec.trace()
    rec.state((lay, "many"))


def adjoint(lay, s, dims, rec):
    """The text format has no adjoint; the finding is exactly 'reads back as the gate without its adjoint'."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    c = make(lay)
    G.put(c, s)
    with tempfile.TemporaryDirectory(dir=".") as d:
        back = QuantumCircuit()
        back.load_from_file(c.save_to_file("circ", d))
    rec.trace()
    rec.state((lay, repr(s)))
    require(len(back.instructions) == 1, "instruction lost", f"adjoint {lay} {s}")
    m = back.instructions[0].to_matrix(2)
    if ref.same(m, G.ref_full(s, dims)):
        return
    require(ref.same(m, G.ref_full([*s[:4], False], dims)), "adjoint reads back as something else", f"adjoint {lay} {s}")
    rec.finding(f"adjoint of {s[0]} lost in the exported text", "the exported text does not say that the gate is an adjoint")


def filekey(lay, draws, rec):
    """Own the random suffix of matrix files: the first key of each gate may equal an earlier one."""
    import random

    seq = list("aaaa" + "".join(x * 4 for x in draws)) + list("cdefghijklmnopqrstuvwxyz" * 4)
    real = random.choice, random.choices
    it = iter(seq)
    random.choice = lambda _s: next(it)
    random.choices = lambda _s, weights=None, *, cum_weights=None, k=1: [next(it) for _ in range(k)]
    try:
        specs = [["cu_one", [0], "u1", None, False], ["cu_one", [1], "u2", None, False], ["cu_one", [0], "diag", None, False]]
        roundtrip(lay, specs, rec, f" keys={draws}")
    finally:
        random.choice, random.choices = real
