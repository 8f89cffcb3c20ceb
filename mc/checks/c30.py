"""C30: every operation of the decision-diagram package is exact, whatever the package computed before."""
from __future__ import annotations

import importlib.util
import itertools
import os

import numpy as np

from mc import cpp, gates as G, ref
from mc.core import VERIF, require

PROPERTY = "C30"
RULE = ("every sequence of decision-diagram operations (gates on two state and two operator slots, products, sums, transposes, conjugates, inner "
        "products) up to a depth, from an empty package and appended to a package that keeps all earlier results; every word of three gates repeated for long runs; every gate and basis state of "
        "every register; all readers against an independent walk of the diagram")
BOUNDS = {
    "quick": "5 registers of 1-3 qudits of dims 2-5; sequences of 3 operations from 17 on a fresh package and on a shared one; all 3-gate words from 8 on 3-4 lines repeated to 240 gates; all gates with up to 2 controls on registers up to 3 qudits of dims 2-5 (dim product <= 60)",
    "thorough": "9 registers up to 4 qudits; sequences of 4 on a fresh package, of 3 on a shared one; repeated words to 600 gates, also on [3,3,3,3] and six qubits",
}
ASSUMPTIONS = ["operators and states are compared entrywise with tolerance 1e-9 (the package merges numbers closer than 1e-13)"]
CASE_LIMIT_S = 600
BATCH = 1

REGISTERS = [[2], [3, 2], [2, 3], [2, 2, 2], [2, 3, 2]]
MORE = [[3], [3, 3], [5, 2], [2, 2, 3]]
_mod = None


def setup(tier, scratch):
    out = os.path.join(scratch, "ddpkg.so")
    cpp.compile_so(scratch, [os.path.join(VERIF, "mc", "cxx", "ddpkg.cpp")], out)
    load(out)


def load(path):
    global _mod
    spec = importlib.util.spec_from_file_location("ddpkg", path)
    _mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(_mod)


def cases(tier, seed):
    deep = tier == "thorough"
    regs = REGISTERS + (MORE if deep else [])
    for s in regs:
        k = len(operations(s))
        for first in range(k):
            if deep:
                for second in range(k):
                    yield {"kind": "history", "sizes": s, "pre": [first, second], "depth": 4, "shared": False}
                yield {"kind": "history", "sizes": s, "pre": [first], "depth": 3, "shared": True}
            else:
                yield {"kind": "history", "sizes": s, "pre": [first], "depth": 3, "shared": False}
        if not deep:
            for part in range(4):
                yield {"kind": "history", "sizes": s, "pre": [], "depth": 3, "shared": True, "part": [part, 4]}
    for sizes in ([2, 3, 2, 3], [5, 2, 3]) + (([3, 3, 3, 3], [2] * 6) if deep else ()):
        for a in range(len(rounds(sizes))):
            yield {"kind": "long", "sizes": sizes, "first": a, "length": 600 if deep else 240}
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for s in itertools.product((2, 3, 4, 5), repeat=n):
            if np.prod(s) <= (100 if deep else 60) and (n < 3 or deep or len(set(s)) > 1 or s[0] < 4):
                yield {"kind": "gates", "sizes": list(s)}
                yield {"kind": "states", "sizes": list(s)}
    for n in (2, 3):
        for s in itertools.product((2, 3), repeat=n):
            yield {"kind": "readers", "sizes": list(s)}
    for d in (2, 3):
        for n in (1, 2, 3):
            yield {"kind": "tensor", "d": d, "n": n}
    for s in ([2, 2], [3, 3], [2, 3], [3, 2], [2, 2, 2], [3, 2, 3], [4, 2], [2, 4], [5, 2], [2, 5], [6, 2], [7, 2], [2, 6], [2, 7]):
        yield {"kind": "entangling", "sizes": s}


def check(case, rec):
    globals()["check_" + case["kind"]](case, rec)


def dims_of(sizes):
    """The package counts qudits from the least significant one; the reference from the most significant one."""
    return list(sizes)[::-1]


def line(sizes, reg):
    return len(sizes) - 1 - reg


def small(tag, d):
    """Small matrices that provoke sharing, cancellation and near-equal weights."""
    if tag == "x":
        return np.roll(np.eye(d, dtype=complex), 1, axis=0)
    if tag == "h":
        w = np.exp(2j * np.pi / d)
        return np.array([[w ** (i * j) for j in range(d)] for i in range(d)]) / np.sqrt(d)
    if tag == "ph":
        return np.diag([np.exp(0.9j * k * k) for k in range(d)])
    if tag == "neg":
        return -np.eye(d, dtype=complex)
    if tag == "low":
        m = np.zeros((d, d), dtype=complex)
        m[0, d - 1] = 2.0 - 1j
        return m
    return G.unitary(tag, d)


def operations(sizes):
    n = len(sizes)
    out = [("gate", "h", n - 1, []), ("gate", "rand", 0, []), ("gate", "neg", 0, [])]
    if n > 1:
        out += [("gate", "x", 0, [(n - 1, 1)]), ("gate", "rand", n - 1, [(0, sizes[0] - 1)])]
    else:
        out += [("gate", "x", 0, []), ("gate", "ph", 0, [])]
    out += [("swap_v",), ("swap_m",), ("sum_v",), ("sum_m",), ("apply",), ("left", "low", 0), ("left", "h", n - 1), ("right", "rand", 0),
            ("square",), ("dagger",), ("transpose",), ("inner",)]
    return out


class World:
    """A package and the reference values of its four slots."""

    def __init__(self, sizes, pkg=None):
        self.sizes, self.dims = sizes, dims_of(sizes)
        self.N = int(np.prod(sizes))
        self.p = pkg or _mod.Pkg(list(sizes))
        p = self.p
        self.v = [p.zero(), p.basis([s - 1 for s in sizes])]
        self.V = [np.eye(self.N, dtype=complex)[0], np.eye(self.N, dtype=complex)[self.N - 1]]
        self.m = [p.ident(), self.gate("rand", 0, [])]
        self.M = [np.eye(self.N, dtype=complex), self.ref("rand", 0, [])]

    def gate(self, tag, reg, ctl):
        return self.p.gate([complex(x) for x in small(tag, self.sizes[reg]).ravel()], reg, ctl)

    def ref(self, tag, reg, ctl):
        return ref.embed(small(tag, self.sizes[reg]), [line(self.sizes, reg)], self.dims, [(line(self.sizes, c), l) for c, l in ctl] or None)

    def do(self, op):
        p, v, m, V, M = self.p, self.v, self.m, self.V, self.M
        k = op[0]
        if k == "gate":
            g = self.gate(*op[1:])
            v[0], V[0] = p.mul_v(g, v[0]), self.ref(*op[1:]) @ V[0]
        elif k == "swap_v":
            v[:], V[:] = v[::-1], V[::-1]
        elif k == "swap_m":
            m[:], M[:] = m[::-1], M[::-1]
        elif k == "sum_v":
            v[0], V[0] = p.add_v(v[0], v[1]), V[0] + V[1]
        elif k == "sum_m":
            m[0], M[0] = p.add_m(m[0], m[1]), M[0] + M[1]
        elif k == "apply":
            v[0], V[0] = p.mul_v(m[0], v[0]), M[0] @ V[0]
        elif k == "left":
            m[0], M[0] = p.mul_m(self.gate(op[1], op[2], []), m[0]), self.ref(op[1], op[2], []) @ M[0]
        elif k == "right":
            m[0], M[0] = p.mul_m(m[0], self.gate(op[1], op[2], [])), M[0] @ self.ref(op[1], op[2], [])
        elif k == "square":
            m[0], M[0] = p.mul_m(m[0], m[1]), M[0] @ M[1]
        elif k == "dagger":
            m[0], M[0] = p.dagger(m[0]), M[0].conj().T
        elif k == "transpose":
            m[0], M[0] = p.transpose(m[0]), M[0].T
        elif k == "inner":
            self.inner()

    def inner(self):
        p = self.p
        for a, b in ((0, 1), (1, 0), (0, 0)):
            want = abs(np.vdot(self.V[a], self.V[b])) ** 2
            got = p.fidelity(self.v[a], self.v[b])
            if abs(got - want) > 1e-8 * max(1, want):
                return f"fidelity of slots {a}, {b} is {got}, should be {want}"
            ip = complex(p.inner(self.v[a], self.v[b]))
            right = np.vdot(self.V[a], self.V[b])
            if min(abs(ip - right), abs(ip - right.conjugate())) > 1e-8 * max(1, abs(right)):
                return f"inner product of slots {a}, {b} is {ip}, should be {right} (or its conjugate)"
        return None

    def wrong(self):
        p, n = self.p, len(self.sizes)
        for k in (0, 1):
            got = np.array(p.read_v(self.v[k], n))
            if not np.allclose(got, self.V[k], atol=1e-9 * max(1, np.max(np.abs(self.V[k])))):
                return f"state slot {k} is {np.round(got, 4).tolist()}, should be {np.round(self.V[k], 4).tolist()}"
            got = np.array(p.read_m(self.m[k], n))
            if not np.allclose(got, self.M[k], atol=1e-9 * max(1, np.max(np.abs(self.M[k])))):
                return f"operator slot {k} is {np.round(got, 4).tolist()}, should be {np.round(self.M[k], 4).tolist()}"
        return None


def check_history(case, rec):
    sizes, ops = case["sizes"], operations(case["sizes"])
    shared = _mod.Pkg(list(sizes)) if case["shared"] else None
    k = 0
    for rest in itertools.product(range(len(ops)), repeat=case["depth"] - len(case["pre"])):
        k += 1
        if "part" in case and k * 31 // 7 % case["part"][1] != case["part"][0]:
            continue
        seq = case["pre"] + list(rest)
        w = World(sizes, shared)
        base = w.p.cached()
        for i, o in enumerate(seq):
            what = f"{sizes} {'shared' if shared else 'fresh'} {[ops[j] for j in seq[:i + 1]]}"
            w.do(ops[o])
            rec.step()
            require(w.p.cached() == base, lambda: f"{what}: temporary numbers are not given back ({base} -> {w.p.cached()})", what)
        bad = w.wrong() or w.inner() or w.wrong()
        require(bad is None, lambda: f"{what}: {bad}", what)
        # the oldest results are still what they were
        if shared is None:
            require(np.allclose(w.p.read_v(0, len(sizes)), np.eye(w.N)[0]) and np.allclose(w.p.read_m(0, len(sizes)), np.eye(w.N)), f"{what}: an earlier result changed", what)
        else:
            w.p.forget()
        rec.trace()
        rec.state((tuple(sizes), bool(shared), tuple(seq)))


def rounds(sizes):
    n = len(sizes)
    out = [("rand", q, []) for q in range(n)] + [("h", n - 1, [(0, 1)]), ("rand", 0, [(n - 1, 0), (1, 1)]), ("ph", 1, [(0, 0)]), ("x", n - 1, [(1, 1)])]
    return out


def check_long(case, rec):
    """Long runs: words of three gates repeated until every table of the package has grown and wrapped several times."""
    sizes, ops = case["sizes"], rounds(case["sizes"])
    n, N = len(sizes), int(np.prod(sizes))
    p = _mod.Pkg(list(sizes))
    mats = []
    for tag, q, ctl in ops:
        mats.append(ref.embed(small(tag, sizes[q]), [line(sizes, q)], dims_of(sizes), [(line(sizes, c), l) for c, l in ctl] or None))
    for b, c in itertools.product(range(len(ops)), repeat=2):
        word = [case["first"], b, c]
        dds = [p.gate([complex(x) for x in small(ops[i][0], sizes[ops[i][1]]).ravel()], ops[i][1], ops[i][2]) for i in word]
        v, V = p.basis([s - 1 for s in sizes]), np.eye(N, dtype=complex)[N - 1]
        v0, V0 = v, V
        for k in range(case["length"] // 3):
            for g, i in zip(dds, word):
                v, V = p.mul_v(g, v), mats[i] @ V
                rec.step()
            if k % 20 == 19:
                what = f"{sizes} {[ops[i] for i in word]} repeated {k + 1} times"
                require(np.allclose(p.read_v(v, n), V, atol=1e-7), lambda: "wrong state: " + what, what)
                require(abs(complex(p.inner(v, v)) - 1) < 1e-7, lambda: f"norm is {p.inner(v, v)}: " + what, what)
                require(np.allclose(p.read_v(v0, n), V0, atol=1e-9), lambda: "an earlier result changed: " + what, what)
                v0, V0 = v, V
        rec.trace()
        rec.state((tuple(sizes), tuple(word)))
        p.forget()


def check_gates(case, rec):
    sizes = case["sizes"]
    n = len(sizes)
    p = _mod.Pkg(list(sizes))
    for t in range(n):
        others = [r for r in range(n) if r != t]
        for k in range(min(2, len(others)) + 1):
            for cs in itertools.combinations(others, k):
                for levels in itertools.product(*[range(sizes[c]) for c in cs]):
                    ctl = list(zip(cs, levels))
                    for tag in ("rand", "x", "low") if k < 2 else ("rand",):
                        g = p.gate([complex(x) for x in small(tag, sizes[t]).ravel()], t, ctl)
                        want = ref.embed(small(tag, sizes[t]), [line(sizes, t)], dims_of(sizes), [(line(sizes, c), l) for c, l in ctl] or None)
                        got = np.array(p.read_m(g, n))
                        what = f"{sizes} {tag} on {t} controlled by {ctl}"
                        require(np.allclose(got, want, atol=1e-9), "wrong gate: " + what, what)
                        if int(np.prod(sizes)) <= 24:
                            require(np.allclose(p.read_m(p.dagger(g), n), want.conj().T, atol=1e-9), "wrong conjugate transpose: " + what, what)
                            require(np.allclose(p.read_m(p.transpose(g), n), want.T, atol=1e-9), "wrong transpose: " + what, what)
                        rec.step()
                        rec.state(what)
        p.forget()
    rec.trace()


def check_states(case, rec):
    sizes = case["sizes"]
    n, N = len(sizes), int(np.prod(sizes))
    p = _mod.Pkg(list(sizes))
    eye = np.eye(N)
    require(np.allclose(p.read_v(p.zero(), n), eye[0]), f"{sizes}: wrong zero state", f"{sizes} zero")
    for i in range(N):
        dig = ref.digits(i, dims_of(sizes))
        require(list(p.digits(i)) == list(dig), f"{sizes}: index {i} has digits {p.digits(i)}, should be {dig}", f"{sizes} digits {i}")
        s = p.basis(list(dig)[::-1])
        require(np.allclose(p.read_v(s, n), eye[i]), f"{sizes}: wrong basis state {dig}", f"{sizes} basis {i}")
        require(np.allclose(p.vector(s), eye[i]), f"{sizes}: getVector of basis state {dig}", f"{sizes} vector {i}")
        require(p.nodes(s) == n + 1, f"{sizes}: basis state with {p.nodes(s)} nodes", f"{sizes} nodes {i}")
        rec.step(3)
        rec.state((tuple(sizes), i))
    # identities over every range of lines from the lowest, in both construction orders
    for order in ([*range(n)], [*range(n)][::-1]):
        p = _mod.Pkg(list(sizes))
        for hi in order:
            size = int(np.prod(sizes[:hi + 1]))
            require(np.allclose(p.read_m(p.ident_part(0, hi), hi + 1), np.eye(size)), f"{sizes}: wrong identity up to {hi}", f"{sizes} ident {hi} {order}")
        require(np.allclose(p.read_m(p.ident(), n), np.eye(N)), f"{sizes}: wrong identity", f"{sizes} ident")
        rec.step(n)
    if n > 1:
        for bad in ([0] * (n - 1) + [sizes[-1]], [sizes[0]] + [0] * (n - 1)):
            try:
                p.basis(bad)
                ok = False
            except Exception:  # noqa: BLE001
                ok = True
            require(ok, f"{sizes}: basis state {bad} accepted", f"{sizes} {bad}")
    rec.trace()


def check_readers(case, rec):
    """getVector, getValueByPath and the text form agree with a walk of the diagram."""
    sizes = case["sizes"]
    n, N, dims = len(sizes), int(np.prod(sizes)), dims_of(sizes)
    w = World(sizes)
    prog = [("gate", "rand", r, []) for r in range(n)] + [("gate", "rand", n - 1, [(0, 1)]), ("gate", "ph", 0, [(n - 1, 0)]), ("left", "rand", n - 1), ("square",),
                                                        ("left", "low", 0), ("sum_m",), ("sum_v",), ("dagger",), ("left", "h", 0)]
    for k in range(len(prog) + 1):
        if k:
            w.do(prog[k - 1])
        p = w.p
        base = p.cached()
        for slot in (0, 1):
            what = f"{sizes} after {prog[:k]} slot {slot}"
            require(np.allclose(p.vector(w.v[slot]), w.V[slot], atol=1e-9), "getVector: " + what, what)
            for i in range(N):
                dig = list(ref.digits(i, dims))
                require(abs(complex(p.amplitude(w.v[slot], dig)) - w.V[slot][i]) < 1e-9, f"amplitude of {dig}: " + what, what)
                text = "".join(str(x) for x in dig[::-1])
                require(abs(complex(p.amplitude_text(w.v[slot], text)) - w.V[slot][i]) < 1e-9, f"amplitude of path {text}: " + what, what)
                for j in range(N):
                    dj = list(ref.digits(j, dims))
                    got = complex(p.entry(w.m[slot], dig, dj))
                    require(abs(got - w.M[slot][i, j]) < 1e-9, f"entry {dig},{dj} is {got}, should be {w.M[slot][i, j]}: " + what, what)
                    path = "".join(str(a * s + b) for a, b, s in zip(dig[::-1], dj[::-1], sizes))
                    got = complex(p.entry_text(w.m[slot], path))
                    require(abs(got - w.M[slot][i, j]) < 1e-9, f"entry at path {path} is {got}, should be {w.M[slot][i, j]}: " + what, what)
                    rec.step()
            rec.state(what)
        require(p.cached() == base, "the readers keep temporary numbers", f"{sizes} {k}")
    rec.trace()


def check_tensor(case, rec):
    """kronecker and extend on registers of equal dimension."""
    d, n = case["d"], case["n"]
    for a in range(1, n + 1):
        for b in range(1, n + 1):
            if a + b > 4:
                continue
            for ta, tb in itertools.product(("id", "rand", "low", "two"), repeat=2):
                p = _mod.Pkg([d] * (a + b))
                one = {"two": 2.0 * np.eye(d, dtype=complex)}
                ma, mb = one.get(ta, small(ta, d) if ta != "id" else np.eye(d, dtype=complex)), one.get(tb, small(tb, d) if tb != "id" else np.eye(d, dtype=complex))
                for pa in range(a):
                    x = p.gate_on(a, [complex(v) for v in ma.ravel()], pa)
                    y = p.gate_on(b, [complex(v) for v in mb.ravel()], b - 1)
                    rx = ref.embed(ma, [a - 1 - pa], [d] * a)
                    ry = ref.embed(mb, [0], [d] * b)
                    what = f"d={d}: {ta} on line {pa} of {a} (x) {tb} on line {b - 1} of {b}"
                    for _again in range(2):
                        got = np.array(p.read_m(p.kron_m(x, y), a + b))
                        require(np.allclose(got, np.kron(rx, ry), atol=1e-9), "wrong tensor product: " + what, what)
                        rec.step()
                    got = np.array(p.read_m(p.extend(y, a, 0), a + b))
                    require(np.allclose(got, np.kron(np.eye(d ** a), ry), atol=1e-9), "extend upwards: " + what, what)
                    got = np.array(p.read_m(p.extend(x, 0, b), a + b))
                    require(np.allclose(got, np.kron(rx, np.eye(d ** b)), atol=1e-9), "extend downwards: " + what, what)
                    require(np.allclose(p.read_m(x, a), rx) and np.allclose(p.read_m(y, b), ry), "an operand changed: " + what, what)
                    rec.state(what)
    rec.trace()


def check_entangling(case, rec):
    """The package's controlled exchange and sum gates are their textbook operators, and daggers undo them."""
    sizes = case["sizes"]
    n = len(sizes)
    p = _mod.Pkg(list(sizes))
    dims = dims_of(sizes)
    for c, t in itertools.permutations(range(n), 2):
        for dag in (False, True):
            try:
                g = p.csum(c, t, dag)
            except Exception:  # noqa: BLE001  refused dimension
                g = None
            if g is not None:
                m = ref.embed(ref.csum(sizes[c], sizes[t]), [line(sizes, c), line(sizes, t)], dims)
                want = m.conj().T if dag else m
                what = f"{sizes} csum {c}->{t} dagger {dag}"
                require(np.allclose(p.read_m(g, n), want, atol=1e-9), "wrong gate: " + what, what)
                rec.step()
                rec.state(what)
            for lev in range(sizes[c]):
                for a, b in itertools.combinations(range(sizes[t]), 2):
                    for phi in (0.0, 0.7, np.pi / 2):
                        try:
                            g = p.cex(lev, phi, a, b, c, t, dag)
                        except Exception:  # noqa: BLE001
                            continue
                        m = G.base_matrix(["cx", [0, 1], [a, b, lev, phi], None, False], [sizes[c], sizes[t]])
                        m = ref.embed(m, [line(sizes, c), line(sizes, t)], dims)
                        want = m.conj().T if dag else m
                        what = f"{sizes} cex {c}={lev} levels {a}{b} phase {phi} on {t} dagger {dag}"
                        require(np.allclose(p.read_m(g, n), want, atol=1e-9), "wrong gate: " + what, what)
                        rec.step()
                        rec.state(what)
    rec.trace()
