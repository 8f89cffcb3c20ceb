"""C08: layout, comments and ignorable statements do not change what a QASM text means; nothing is dropped silently."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C08"
RULE = ("every placement of up to k layout elements (blank lines, line and block comments containing code, headers, "
        "classical registers, measurements, barriers, line ends, joined lines, spacing styles) in each base program; the "
        "circuit read is compared gate by gate with the program's meaning; every parameter expression of a small grammar; "
        "every single-statement corruption must be refused")
BOUNDS = {"quick": "6 base programs, all placements of <=2 of 16 elements, all expressions of the grammar up to 2 operators over 7 atoms",
          "thorough": "the same with <=3 elements and 3 operators"}

HEAD = ["DITQASM 2.0;"]
# (lines, dims, specs)
PROGRAMS = [
    (["qreg q [2][3,2];", "creg m[2];", "h q[0];", "x q[1];", "measure q[0] -> m[0];"], [3, 2],
     [["h", [0], None, None, False], ["x", [1], None, None, False]]),
    (["qreg a [1][3];", "creg m0[2];", "qreg b [2][2,4];", "creg m1 [3];", "rxy (0, 2, pi/3, -pi/4) a[0];", "csum b[1], a[0];", "virtrz (3, 0.25) b[1];"], [3, 2, 4],
     [["r", [0], [0, 2, math.pi / 3, -math.pi / 4], None, False], ["csum", [2, 0], None, None, False], ["virtrz", [2], [3, 0.25], None, False]]),
    (["qreg q [3];", "x q[0] ctl q[1] q[2] [1,0];", "cx (0, 1, 1, pi/2) q[2], q[0];", "ms (pi/2) q[0], q[1];"], [2, 2, 2],
     [["x", [0], None, [[1, 1], [2, 0]], False], ["cx", [2, 0], [0, 1, 1, math.pi / 2], None, False], ["ms", [0, 1], [math.pi / 2], None, False]]),
    (["qreg long_name1 [2][5,3];", "pm (1,2,0) long_name1[1];", "rh (0,4) long_name1[0];", "s long_name1[1];", "z long_name1[0];"], [5, 3],
     [["pm", [1], [1, 2, 0], None, False], ["rh", [0], [0, 4], None, False], ["s", [1], None, None, False], ["z", [0], None, None, False]]),
    (["qreg q [12];", "x q[11];", "rz (0,1,1.5e-1) q[10];"], [2] * 12,
     [["x", [11], None, None, False], ["rz", [10], [0, 1, 0.15], None, False]]),
    (["qreg q [2][12,2];", "qreg r10 [1][11];", "h q[1] ctl r10[0] q[0] [10,11];", "rxy (1, 10, 0.5, 0.25) r10[0];"], [12, 2, 11],
     [["h", [1], None, [[2, 10], [0, 11]], False], ["r", [2], [1, 10, 0.5, 0.25], None, False]]),
]
# elements inserted between lines
INSERT = {
    "blank": [""], "spaces": ["   \t "], "line": ["// a comment"], "codeline": ["//x q[0];"], "block1": ["/* a block comment */"],
    "blockcode": ["/* x q[0]; */"], "block2": ["/* opening", "x q[0];", "h q[1]; */"], "block3": ["/*", "qreg z [4];", "*/"],
    "header": ["include \"qelib1.inc\";"], "creg": ["creg extra[3];"], "barrier": ["barrier REG[0];"], "measure": ["measure REG[0] -> m[0];"],
    "stars": ["/** doc **/"], "blockslash": ["/* // nested */"],
    "lineopens": ["// see /* below"], "slashcloses": ["/* x q[0];", "// */"], "starline": ["//* x q[0];"],
}
# changes of a line itself
TOUCH = {
    "indent": lambda s: "   " + s, "tab": lambda s: "\t" + s, "trail": lambda s: s + "   ", "cr": lambda s: s + "\r",
    "tailcomment": lambda s: s + " // x q[0];", "tailblock": lambda s: s + " /* x q[0]; */", "headblock": lambda s: "/* c */ " + s,
    "semi": lambda s: s if s.startswith("qreg") else s[:-1] + " ;", "loose": lambda s: s.replace(",", " , ") if not s.startswith("qreg") and " ctl " not in s else s,
    "tight": lambda s: s.replace(", ", ",").replace(" (", "("), "join": None, "glue": None,
}


def cases(tier, seed):
    k = 2 if tier == "quick" else 3
    for p in range(len(PROGRAMS)):
        n = len(PROGRAMS[p][0])
        slots = [["ins", e, i] for e in INSERT for i in range(n + 2)] + [["touch", t, i] for t in TOUCH for i in range(n)]
        if p >= 4:
            slots = [s for s in slots if s[2] in (1, 2)]
        yield {"kind": "layout", "program": p, "edits": [], "more": 0, "slots": 0}
        for i, s in enumerate(slots):
            yield {"kind": "layout", "program": p, "edits": [s], "more": k - 1, "slots": i}
    ops = 2 if tier == "quick" else 3
    for first in ATOMS:
        yield {"kind": "expr", "first": first, "ops": ops}
    for p in range(len(PROGRAMS)):
        yield {"kind": "corrupt", "program": p}
    yield {"kind": "lines"}


ATOMS = ["pi", "2", "0.5", "3.25", "1e-1", "-pi", "(pi)", "+2", ".5", "10", " 3 "]


def render(p, edits):
    lines, _dims, _specs = PROGRAMS[p]
    reg = lines[0].split()[1]
    lines = list(lines)
    joined, glued = set(), set()
    touched = {}
    for kind, what, i in edits:
        if kind == "touch":
            if what in ("join", "glue"):
                joined.add(i)
                if what == "glue":
                    glued.add(i)
            else:
                lines[i] = TOUCH[what](lines[i])
                touched.setdefault(i, []).append(what)
    out = list(HEAD)
    ins = {}
    for kind, what, i in edits:
        if kind == "ins":
            ins.setdefault(i, []).append(what)
    text = []
    for e in ins.get(0, []):
        text += [x.replace("extra", f"extra{len(text)}_") for x in INSERT[e]]
    text += out
    for i in range(len(lines) + 1):
        for e in ins.get(i + 1, []):
            if e in {"barrier", "measure"} and i == 0:
                continue
            text += [x.replace("REG", reg).replace("extra", f"extra{len(text)}_") for x in INSERT[e]]
        if i < len(lines):
            if i in joined and i > 0 and text and not text[-1].endswith("\r") and "//" not in text[-1] and text[-1].strip():
                text[-1] += ("" if i in glued else " ") + lines[i]
            else:
                text.append(lines[i])
    return "\n".join(text) + "\n"


def compatible(edits):
    t = [e[2] for e in edits if e[0] == "touch" and e[1] not in ("join", "glue")]
    return len(t) == len(set(t))


def compare(circ, dims, specs, key):
    require(list(circ.dimensions) == dims, f"dimensions {circ.dimensions}, expected {dims}", key)
    require(len(circ.instructions) == circ.number_gates == len(specs), f"{len(circ.instructions)} gates read, expected {len(specs)}: "
            f"{[g.qasm_tag for g in circ.instructions]}", key)
    for k, (g, s) in enumerate(zip(circ.instructions, specs)):
        lines = sorted({*s[1], *([c[0] for c in s[3]] if s[3] else [])})
        require(sorted(g.reference_lines) == lines, f"gate {k} is on {g.reference_lines}, expected {lines}", key)
        pos = {ln: i for i, ln in enumerate(lines)}
        sub = [dims[ln] for ln in lines]
        want = G.ref_full([s[0], [pos[t] for t in s[1]], s[2], [[pos[c[0]], c[1]] for c in s[3]] if s[3] else None, s[4]], sub)
        if lines == list(range(lines[0], lines[0] + len(lines))):
            got = g.to_matrix(1)
        else:
            got = g.to_matrix(2)
            want = ref.embed(want, lines, dims)
        require(got.shape == want.shape and ref.same(got, want, 1e-8), f"gate {k} ({s}) has another matrix", key)


def check(case, rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    if case["kind"] == "layout":
        p = case["program"]
        _l, dims, specs = PROGRAMS[p]
        n = len(_l)
        slots = [["ins", e, i] for e in INSERT for i in range(n + 2)] + [["touch", t, i] for t in TOUCH for i in range(n)]
        if p >= 4:
            slots = [s for s in slots if s[2] in (1, 2)]
        seen = set()
        for k in range(case["more"] + 1):
            for rest in itertools.combinations(slots[case["slots"]:], k):
                edits = [*case["edits"], *rest]
                if not compatible(edits):
                    continue
                text = render(p, edits)
                if text in seen:
                    continue
                seen.add(text)
                key = f"program {p}: {edits}"
                circ = QuantumCircuit()
                try:
                    circ.from_qasm(text)
                except Exception as e:  # noqa: BLE001
                    rec.finding(key, f"not readable: {type(e).__name__}: {e}\n{text}")
                    continue
                rec.step(len(edits) + 1)
                rec.trace()
                rec.state(text)
                compare(circ, dims, specs, key)
                bits = [(ln.split()[1].split("[")[0], int(ln.rsplit("[", 1)[1].split("]")[0])) for ln in _l if ln.startswith("creg")]
                bits = [b for name, size in bits for b in [(name, j) for j in range(size)]]
                extra = 3 * sum(e[:2] == ["ins", "creg"] for e in edits)
                got = [circ.cl_inverse_sitemap[i] for i in range(circ.num_cl)]
                require(circ.num_cl == len(bits) + extra and [b for b in got if not b[0].startswith("extra")] == bits
                        and all(circ.classic_site_map[b] == (i,) for i, b in enumerate(got)), f"classical bits {got}, expected {bits}", key)
    elif case["kind"] == "expr":
        binary = ["*", "/", "+", "-", " - ", "^", "*-"]
        for k in range(case["ops"] + 1):
            for tail in itertools.product(itertools.product(binary, ["pi", "2", "0.5", "(pi+1)"] if case["ops"] < 3 else ["pi", "2", "(pi)"]), repeat=k):
                ex = case["first"] + "".join(o + a for o, a in tail)
                if "(" in ex:
                    ex = ex.replace("(pi+1)", "4").replace("(pi)", "pi")
                try:
                    val = float(eval(ex.replace("^", "**"), {"pi": math.pi}))  # noqa: S307  the expression is ours
                except (TypeError, OverflowError):
                    continue  # a root of a negative number, or too large
                if abs(val) > 1e6:
                    continue  # too large for the angle to mean anything at this precision
                circ = QuantumCircuit()
                circ.from_qasm(f"DITQASM 2.0;\nqreg q [1][3];\nvirtrz (1, {ex}) q[0];\n")
                rec.step()
                rec.trace()
                rec.state(ex)
                key = f"expression {ex}"
                require(len(circ.instructions) == 1, "gate dropped", key)
                require(ref.same(circ.instructions[0].to_matrix(), ref.virtrz(3, 1, val), 1e-9), f"{ex} read as another angle", key)
    elif case["kind"] == "corrupt":
        lines, dims, specs = PROGRAMS[case["program"]]
        for i, line in enumerate(lines):
            variants = {"unknown gate": line.replace(line.split()[0], "frobnicate", 1), "no semicolon": line[:-1],
                        "garbage": "??? " + line[:3], "if": "if (m==1) " + line, "gate def": "gate_matrix foo a { x a; }"}
            if not line.startswith(("qreg", "creg", "measure")):
                variants["unknown register"] = line.replace("q[", "zz[").replace("r10[", "zz[").replace("a[", "zz[").replace("b[", "zz[").replace("long_name1[", "zz[").replace("zzz[", "zz[")
                variants["line out of range"] = line.replace("[0]", "[77]").replace("[1]", "[77]").replace("[2]", "[77]").replace("[11]", "[77]").replace("[10]", "[77]")
            for word in ("measure", "barrier", "qreg", "creg"):
                variants[f"word like {word}"] = f"{word}d {lines[0].split()[1]}[0]; " + line
                variants[f"word in {word}"] = f"{word}_all {lines[0].split()[1]}[0]; " + line
            if line.startswith(("qreg", "creg")):
                variants["declared twice"] = line + " " + line
                again = [ln for ln in lines if ln.startswith(line[:4])]
                if line == again[-1] != again[0]:
                    variants["an earlier one declared again"] = line + " " + again[0]
                variants["declared again, larger"] = line + " " + ("qreg %s [9];" if line.startswith("qreg") else "creg %s[9];") % line.split()[1].split("[")[0]
            if line.startswith("qreg") and line.count("[") == 2:
                variants["spare dimension"] = line[:-2] + ",3];"
                variants["missing dimension"] = line.rsplit("[", 1)[0] + "[2];" if "," in line else line[:-2] + ",2];"
                variants["fractional dimension"] = line[:-2] + ".5];"
            if "(" in line and " ctl " not in line:
                inside = line[line.index("(") + 1:line.rindex(")")]
                parts = inside.split(",")
                new = {"spare parameter": [*parts, "1"], "spare empty parameter": [*parts, ""], "spare nonsense": [*parts, "2 2"], "missing parameter": parts[:-1], "empty parameter": [*parts[:-1], ""],
                       "glued number": [*parts[:-1], "2pi"], "glued number after": [*parts[:-1], "pi2"], "unknown name": [*parts[:-1], "tau"],
                       "word": [*parts[:-1], "pi pi"]}
                if parts[0].strip() in "0123456789" and len(parts) > 1:
                    new["fractional level"] = [parts[0] + ".5", *parts[1:]]
                    new["fractional level by division"] = ["1/2", *parts[1:]]
                for w, q in new.items():
                    variants[w] = line[:line.index("(") + 1] + ",".join(q) + line[line.rindex(")"):]
            for what, bad in variants.items():
                if what in {"no semicolon"} and line.startswith("measure"):
                    continue
                if what == "unknown gate" and line.startswith(("creg", "measure")):
                    continue
                if what == "if" and line.startswith(("qreg", "creg", "measure")):
                    continue
                text = "\n".join([*HEAD, *lines[:i], bad, *lines[i + 1:]])
                circ = QuantumCircuit()
                rec.step()
                rec.trace()
                rec.state(text)
                try:
                    circ.from_qasm(text)
                except Exception:  # noqa: BLE001
                    rec.count("refused")
                    continue
                rec.finding(f"program {case['program']}: {what} in line {i}", f"accepted {bad!r}; gates {[g.qasm_tag for g in circ.instructions]}")
    else:
        # statement order and reuse: reading twice with the same object gives the second program only
        for a, b in itertools.permutations(range(len(PROGRAMS)), 2):
            circ = QuantumCircuit()
            circ.from_qasm(render(a, []))
            circ.from_qasm(render(b, []))
            rec.step(2)
            rec.trace()
            rec.state((a, b))
            compare(circ, PROGRAMS[b][1], PROGRAMS[b][2], f"program {b} read after program {a}")
            require(circ.num_qudits == len(PROGRAMS[b][1]), "stale qudit count", f"program {b} read after program {a}")
