"""C05: circuit construction behaves like a list of gates on a growing list of lines, under every operation sequence."""
from __future__ import annotations

import itertools

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import Violation, require

PROPERTY = "C05"
RULE = ("every sequence of circuit operations up to the depth, executed on a real circuit and on a reference model "
        "(list of lines, list of gates); after every operation all circuits alive are compared with their models: "
        "registers, dimensions, counts, each gate's lines/levels/controls and matrix")
BOUNDS = {"quick": "17 operations, all sequences of length <= 4 after each of 3 starting circuits",
          "thorough": "17 operations, all sequences of length <= 5"}

OPS = ["reg1", "reg2", "creg", "x", "csum", "r", "cu", "ctlx", "mutate", "fork", "forkback", "replace0", "replace2", "setrev", "reset", "observe", "map"]
STARTS = ["empty", "sized", "register"]


def cases(tier, seed):
    depth = 4 if tier == "quick" else 5
    for start in STARTS:
        for first in itertools.product(OPS, repeat=2):
            yield {"start": start, "prefix": list(first), "depth": depth}
        yield {"start": start, "prefix": [], "depth": 1}


class Model:
    def __init__(self):
        self.regs = []  # (label, first line, dims)
        self.dims = []
        self.ops = []  # (spec, dagger)
        self.cl = 0
        self.map = None

    def clone(self):
        m = Model()
        m.regs, m.dims, m.ops, m.cl = list(self.regs), list(self.dims), list(self.ops), self.cl
        m.map = self.map
        return m


_cache = {}


def local(spec, dims):
    k = (repr(spec), tuple(dims))
    if k not in _cache:
        lines = sorted({*spec[1], *([c[0] for c in spec[3]] if spec[3] else [])})
        pos = {ln: i for i, ln in enumerate(lines)}
        sub = [dims[ln] for ln in lines]
        s = [spec[0], [pos[t] for t in spec[1]], spec[2], [[pos[c[0]], c[1]] for c in spec[3]] if spec[3] else None, spec[4]]
        _cache[k] = (lines, G.ref_full(s, sub))
    return _cache[k]


class World:
    def __init__(self, start):
        from mqt.qudits.quantum_circuit import QuantumCircuit
        from mqt.qudits.quantum_circuit.components.quantum_register import QuantumRegister

        self.n = 0
        self.model = Model()
        self.given = []  # caller-owned lists handed to the circuit
        self.other = None
        self.regobj = {}
        if start == "empty":
            self.circ = QuantumCircuit()
        elif start == "sized":
            dims = [2, 3]
            self.circ = QuantumCircuit(2, dims, 0)
            self.given.append(dims)
            self.model.regs.append(("q", 0, [2, 3]))
            self.model.dims += [2, 3]
        else:
            dims = [3, 2]
            reg = QuantumRegister("a", 2, dims)
            self.circ = QuantumCircuit(reg)
            self.given.append(dims)
            self.model.regs.append(("a", 0, [3, 2]))
            self.model.dims += [3, 2]
            self.regobj["a"] = reg

    def reg(self, dims):
        from mqt.qudits.quantum_circuit.components.quantum_register import QuantumRegister

        self.n += 1
        label = f"reg{self.n}"
        lst = list(dims)
        reg = QuantumRegister(label, len(dims), lst)
        self.circ.append(reg)
        self.given.append(lst)
        self.model.regs.append((label, len(self.model.dims), list(dims)))
        self.model.dims += dims
        self.regobj[label] = reg

    def gate(self, spec, call):
        call()
        self.model.ops.append(spec)

    def apply(self, op):
        c, m = self.circ, self.model
        n = len(m.dims)
        if op == "reg1":
            self.reg([2])
        elif op == "reg2":
            self.reg([3, 2])
        elif op == "creg":
            from mqt.qudits.quantum_circuit.components.classic_register import ClassicRegister

            self.n += 1
            cr = ClassicRegister(f"c{self.n}", 2)
            c.append_classic(cr)
            require([cr[0], cr[1]] == [m.cl, m.cl + 1] and cr[0:2] == [m.cl, m.cl + 1], f"classical lines {cr[0:2]}")
            m.cl += 2
        elif op == "x":
            if n == 0:
                return False
            self.gate(["x", [n - 1], None, None, False], lambda: c.x(n - 1))
        elif op == "csum":
            if n < 2:
                return False
            t = [n - 1, 0]
            self.gate(["csum", [n - 1, 0], None, None, False], lambda: c.csum(t))
            self.given.append(t)
        elif op == "r":
            if n == 0:
                return False
            p = [1, 0, 0.7, 0.4]
            self.gate(["r", [0], [1, 0, 0.7, 0.4], None, True], lambda: c.r(0, p).dag())
            self.given.append(p)
        elif op == "cu":
            if n < 2:
                return False
            t = [0, n - 1]
            u = G.unitary("u1", m.dims[0] * m.dims[n - 1]).copy()
            self.gate(["cu_two", [0, n - 1], "u1", None, False], lambda: c.cu_two(t, u))
            self.given += [t, u]
        elif op == "ctlx":
            if n < 2:
                return False
            i, lv = [n - 1], [m.dims[n - 1] - 1]
            self.gate(["x", [0], None, [[n - 1, m.dims[n - 1] - 1]], False], lambda: c.x(0).control(i, lv))
            self.given += [i, lv]
        elif op == "mutate":
            if not self.given:
                return False
            for g in self.given:
                if isinstance(g, np.ndarray):
                    g[:] = 0
                else:
                    for k in range(len(g)):
                        g[k] = 1 - g[k] if isinstance(g[k], int) and g[k] < 2 else 0
        elif op == "fork":
            self.other = (c, m, self.regobj)
            self.circ, self.model = c.copy(), m.clone()
            self.regobj = {}
        elif op == "forkback":
            if self.other is None:
                return False
            (self.circ, self.model, self.regobj), self.other = self.other, (self.circ, self.model, self.regobj)
        elif op in {"replace0", "replace2"}:
            if not m.ops:
                return False
            k = len(m.ops) // 2
            from mqt.qudits.quantum_circuit.gates import Rz, Z

            if op == "replace0":
                c.replace_gate(k, [])
                m.ops[k:k + 1] = []
            else:
                c.replace_gate(k, [Z(c, "Z", 0, m.dims[0]), Rz(c, "Rz", n - 1, [0, 1, 0.3], m.dims[n - 1])])
                m.ops[k:k + 1] = [["z", [0], None, None, False], ["rz", [n - 1], [0, 1, 0.3], None, False]]
        elif op == "setrev":
            if len(m.ops) < 2:
                return False
            seq = list(reversed(c.instructions))
            out = c.set_instructions(seq)
            require(out is c, "set_instructions does not return the circuit")
            seq.clear()
            m.ops.reverse()
        elif op == "reset":
            c.reset()
            m.regs, m.dims, m.ops, m.cl, m.map = [], [], [], 0, None
            self.regobj = {}
        elif op == "map":
            m.map = [list(reversed(range(d))) for d in m.dims]
            require(c.set_mapping([list(x) for x in m.map]) is c, "set_mapping does not return the circuit")
        elif op == "observe":
            c.to_qasm()
            for g in c.instructions:
                g.to_matrix()
                g.reference_lines.clear()
                repr(g)
            if m.dims:
                c.simulate()
        return True


def m_map(m):
    return m.map


def compare(c, m, regobj, key):
    require(list(c.dimensions) == m.dims, f"dimensions {c.dimensions}, expected {m.dims}", key)
    require(c.num_qudits == len(m.dims), f"num_qudits {c.num_qudits}, expected {len(m.dims)}", key)
    require(c.num_cl == m.cl, f"num_cl {c.num_cl}, expected {m.cl}", key)
    require(c.mappings == m.map, f"mappings {c.mappings}, expected {m.map}", key)
    require(len(c.quantum_registers) == len(m.regs), "number of registers", key)
    for q, (label, first, dims) in zip(c.quantum_registers, m.regs):
        require(q.label == label and q.size == len(dims) and list(q.dimensions) == dims, f"register {q.label}", key)
        for h in filter(None, (q, regobj.get(label))):
            lines = [h[i] for i in range(len(dims))]
            require(lines == list(range(first, first + len(dims))), f"register {label} has lines {lines}", key)
            require(h[0:len(dims)] == lines, "register slice", key)
            for beyond in (len(dims), -1, slice(0, len(dims) + 1), slice(-1, len(dims))):
                try:
                    h[beyond]
                except LookupError:
                    continue
                require(False, f"register {label} has no {beyond}", key)
    require(c.number_gates == len(c.instructions) == len(m.ops), f"{c.number_gates} / {len(c.instructions)} gates, expected {len(m.ops)}", key)
    for k, (g, spec) in enumerate(zip(c.instructions, m.ops)):
        lines, want = local(spec, m.dims)
        require(sorted(g.reference_lines) == lines, f"gate {k} lies on {g.reference_lines}, expected {lines}", key)
        kind = ["SINGLE", "TWO", "MULTI"][min(len(lines), 3) - 1]
        require(g.gate_type.name == kind or spec[0] in {"cu_multi", "randu"}, f"gate {k} on {len(lines)} lines is of type {g.gate_type.name}", key)
        t = g.target_qudits
        require((t if isinstance(t, list) else [t]) == spec[1], f"gate {k} targets {t}, expected {spec[1]}", key)
        dim = g.dimensions
        require((list(dim) if isinstance(dim, list) else [dim]) == [m.dims[q] for q in spec[1]], f"gate {k} dimensions {dim}", key)
        got = g.to_matrix(2)
        full = ref.embed(want, lines, m.dims) if len(lines) != len(m.dims) else want
        require(got.shape == full.shape and ref.same(got, full, 1e-7), f"gate {k} ({spec}) changed its matrix", key)


def run(start, seq, rec):
    w = World(start)
    done = []
    for op in seq:
        done.append(op)
        key = f"{start}: {' '.join(done)}"
        try:
            ok = w.apply(op)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{op} failed: {type(e).__name__}: {e}", key) from e
        if ok is False:
            return len(done)  # not enabled: every extension is cut
        rec.step()
        if len(done) == len(seq):
            compare(w.circ, w.model, w.regobj, key)
            if w.other:
                compare(*w.other, key)
            rec.state((start, w.model.regs, w.model.ops, w.model.cl, w.other and (w.other[1].regs, w.other[1].ops)))
    rec.trace()
    return None


def check(case, rec):
    pre = case["prefix"]
    lengths = [1, 0] if not pre else range(case["depth"] - len(pre) + 1)
    for ln in lengths:
        dead = set()
        for ext in itertools.product(OPS, repeat=ln):
            if any(ext[:k] in dead for k in range(ln)):
                continue
            cut = run(case["start"], [*pre, *ext], rec)
            if cut is not None:
                if cut <= len(pre):
                    return
                dead.add(ext[:cut - len(pre)])
