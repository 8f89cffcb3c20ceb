"""Gate specifications shared by the checks: JSON form, construction on the real circuit, reference meaning.

A spec is [name, targets, params, controls, dag]:
  name     r rz rh virtrz x z s h pm cu_one noisex noisey noisez randu | csum cx ms ls cu_two | cu_multi
  targets  list of lines (single-qudit gates: one entry)
  params   list, or a string tag naming a fixed matrix for the custom gates
  controls [[line, level], ...] or None
  dag      bool
"""
from __future__ import annotations

import cmath
import hashlib
import itertools
import math

import numpy as np

from mc import ref

SINGLE = {"r", "rz", "rh", "virtrz", "x", "z", "s", "h", "pm", "cu_one", "noisex", "noisey", "noisez"}
TWO = {"csum", "cx", "ms", "ls", "cu_two"}


def unitary(tag, n):
    """A fixed generic unitary (no symmetry) determined by its tag and size; special tags are structured."""
    if tag == "id":
        return np.eye(n, dtype=complex)
    if tag == "diag":
        return np.diag([cmath.exp(1j * (0.3 + 0.7 * k * k)) for k in range(n)])
    if tag == "perm":
        m = np.zeros((n, n), dtype=complex)
        for k in range(n):
            m[(k * 1 + 1) % n, k] = cmath.exp(0.4j * k)
        return m
    if tag == "real":
        return unitary_from(hashlib.sha256(b"real%d" % n).digest(), n, real=True)
    return unitary_from(hashlib.sha256(f"{tag}:{n}".encode()).digest(), n)


def unitary_from(seed, n, real=False):
    rng = np.random.RandomState(np.frombuffer(seed[:16], dtype=np.uint32))
    m = rng.randn(n, n) + (0 if real else 1j * rng.randn(n, n))
    q, rr = np.linalg.qr(m)
    return (q * (np.diag(rr) / np.abs(np.diag(rr)))).astype(complex)


def param_matrix(name, tag, dims):
    return unitary(tag, int(np.prod(dims)))


def base_matrix(spec, dims):
    """Matrix of the gate on its targets in *target order* (no control, no dagger)."""
    name, t, p = spec[0], spec[1], spec[2]
    d = dims[t[0]]
    if name == "r":
        return ref.r(d, *p)
    if name == "rz":
        return ref.rz(d, *p)
    if name == "rh":
        a, b = sorted(p)
        return ref.r(d, a, b, -math.pi, 0.0) @ ref.r(d, a, b, math.pi / 2, math.pi / 2)
    if name == "virtrz":
        return ref.virtrz(d, *p)
    if name == "noisez":
        return ref.virtrz(d, p[0], math.pi)
    if name == "noisex":
        m = np.eye(d, dtype=complex)
        m[[p[0], p[1]]] = m[[p[1], p[0]]]
        return m
    if name == "noisey":
        a, b = sorted(p)
        m = np.eye(d, dtype=complex)
        m[a, a] = m[b, b] = 0
        m[a, b], m[b, a] = -1j, 1j
        return m
    if name in {"x", "z", "s", "h"}:
        return getattr(ref, name)(d)
    if name == "pm":
        return ref.perm(p)
    if name in {"cu_one", "cu_two", "cu_multi"}:
        return unitary(p, int(np.prod([dims[q] for q in t])))
    d0, d1 = dims[t[0]], dims[t[1]]
    if name == "csum":
        return ref.csum(d0, d1)
    if name == "cx":
        la, lb, lev, ang = p if p else (0, 1, 1, 0.0)
        m = np.eye(d0 * d1, dtype=complex)
        ia, ib = lev * d1 + la, lev * d1 + lb
        m[ia, ia] = m[ib, ib] = 0
        m[ia, ib] = -1j * math.cos(ang) - math.sin(ang)
        m[ib, ia] = -1j * math.cos(ang) + math.sin(ang)
        return m
    if name == "ms":
        s0 = np.zeros((d0, d0), dtype=complex)
        s0[0, 1] = s0[1, 0] = 1
        s1 = np.zeros((d1, d1), dtype=complex)
        s1[0, 1] = s1[1, 0] = 1
        g = np.kron(s0, np.eye(d1)) + np.kron(np.eye(d0), s1)
        return ref.expmh(g @ g / 4, p[0])
    if name == "ls":
        m = np.eye(d0 * d1, dtype=complex)
        for i in range(min(d0, d1)):
            m[i * d1 + i, i * d1 + i] = cmath.exp(-1j * p[0])
        return m
    raise KeyError(name)


def ref_full(spec, dims):
    m = base_matrix(spec, dims)
    if len(spec) > 4 and spec[4]:
        m = m.conj().T
    return ref.embed(m, spec[1], dims, spec[3] if len(spec) > 3 else None)


def ref_circuit(specs, dims):
    u = np.eye(int(np.prod(dims)), dtype=complex)
    for s in specs:
        u = ref_full(s, dims) @ u
    return u


def put(circ, spec, style="kwarg"):
    """Append the gate to the real circuit through the public API and return the gate object."""
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData

    name, t, p = spec[0], spec[1], spec[2]
    ctl = spec[3] if len(spec) > 3 else None
    dag = spec[4] if len(spec) > 4 else False
    dims = circ.dimensions
    at_ctor = bool(ctl) and style == "ctor"
    cd = [ControlData([c[0] for c in ctl], [c[1] for c in ctl])] if at_ctor else []
    if name in {"x", "z", "s", "h"}:
        g = getattr(circ, name)(t[0], *cd)
    elif name in {"r", "rz", "rh", "virtrz", "noisex", "noisey"}:
        g = getattr(circ, name)(t[0], list(p), *cd)
    elif name == "noisez":
        g = circ.noisez(t[0], p[0], *cd)
    elif name == "pm":
        g = circ.pm(t[0], list(p))
        at_ctor = False
    elif name == "cu_one":
        g = circ.cu_one(t[0], unitary(p, dims[t[0]]), *cd)
    elif name == "csum":
        g = circ.csum(list(t))
    elif name == "cx":
        g = circ.cx(list(t), list(p)) if p else circ.cx(list(t))
    elif name in {"ms", "ls"}:
        g = getattr(circ, name)(list(t), list(p))
    elif name in {"cu_two", "cu_multi"}:
        g = getattr(circ, name)(list(t), unitary(p, int(np.prod([dims[q] for q in t]))))
    else:
        raise KeyError(name)
    if ctl and not at_ctor:
        g = g.control([c[0] for c in ctl], [c[1] for c in ctl])
    if dag:
        g = g.dag()
    return g


def build(dims, specs, style="kwarg"):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    c = QuantumCircuit(len(dims), list(dims), 0)
    for s in specs:
        put(c, s, style)
    return c


def implemented_unitary(circ, gates=None):
    """Product of the register-wide matrices of a real instruction list (first instruction acts first)."""
    dims = circ.dimensions
    u = np.eye(int(np.prod(dims)), dtype=complex)
    for g in circ.instructions if gates is None else gates:
        u = g.to_matrix(identities=2) @ u
    return u


def meaning(gate, dims):
    """Register-wide matrix of a real gate object, computed by the reference embedding from the bare local matrix.

    Used where the emitted gates are arbitrary objects: it only uses the public to_matrix(0), targets and controls
    for uncontrolled gates, and the register-wide matrix otherwise.
    """
    return gate.to_matrix(identities=2)


ANG = [0.0, 0.05, -0.05, 1e-3, -1e-5, math.pi / 7, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 1.9 * math.pi, 2 * math.pi,
       -2 * math.pi, 3.1 * math.pi, 4 * math.pi, -3.95 * math.pi]


def alphabet(dims, rich=True, only=None):
    """A menu of gate specs on a register: every gate family, every target tuple, both target orders, controls
    with lines before / after / on both sides of the target and non-trivial levels."""
    n = len(dims)
    out = []
    for q in range(n):
        d = dims[q]
        out += [["h", [q], None], ["x", [q], None], ["z", [q], None], ["r", [q], [0, d - 1, 0.7, 0.4]],
                ["rz", [q], [d - 2, d - 1, 0.9]], ["virtrz", [q], [d - 1, 1.1]], ["rh", [q], [d - 1, 0]],
                ["cu_one", [q], "u1"], ["pm", [q], list(range(1, d)) + [0]]]
        if d in (2, 3, 5, 7):
            out.append(["s", [q], None])
        if rich:
            out += [["r", [q], [d - 1, 0, -2.1, 2.5]], ["noisex", [q], [0, d - 1]], ["noisey", [q], [d - 1, 0]],
                    ["noisez", [q], [d - 1]]]
        others = [x for x in range(n) if x != q]
        for o in others:
            out += [["x", [q], None, [[o, dims[o] - 1]], False], ["r", [q], [0, d - 1, 1.3, 0.2], [[o, 0]], True]]
            if rich:
                out += [["h", [q], None, [[o, 1]], False], ["virtrz", [q], [0, 0.8], [[o, 1]], False],
                        ["cu_one", [q], "u2", [[o, dims[o] - 1]], True]]
        for m in range(2, n):
            for lines in (itertools.permutations(others, m) if rich else itertools.combinations(others, m)):
                out.append(["x", [q], None, [[o, (dims[o] - 1 + k) % dims[o]] for k, o in enumerate(lines)], False])
    for a, b in itertools.permutations(range(n), 2):
        out += [["csum", [a, b], None], ["cx", [a, b], None], ["cx", [a, b], [0, dims[b] - 1, dims[a] - 1, 0.6]],
                ["ms", [a, b], [0.8]], ["ls", [a, b], [1.1]], ["csum", [a, b], None, None, True]]
        if a < b:
            out.append(["cu_two", [a, b], "u1"])
    for m in range(3, n + 1):
        for t in itertools.combinations(range(n), m):
            out.append(["cu_multi", list(t), "u1"])
    out = [(s + [None, False])[:5] if len(s) == 3 else s for s in out]
    if only:
        out = [s for s in out if s[0] in only]
    seen, res = set(), []
    for s in out:
        k = repr(s)
        if k not in seen:
            seen.add(k)
            res.append(s)
    return res


def twins(dims):
    """Families of gates on the same lines that differ in one attribute (a level, an angle, an adjoint, a control level,
    a control line, the target order): a program holding two of them tells apart what keeps them apart."""
    n = len(dims)
    fams = []

    def var(name, t, plist, ctls=(None,)):
        fams.append([[name, list(t), p, c, dag] for p in plist for c in ctls for dag in (False, True)])

    for q in range(n):
        d = dims[q]
        ctls = [None] + [[[o, lv]] for o in range(n) if o != q for lv in range(dims[o])]
        if n > 2:
            a, b = [o for o in range(n) if o != q][:2]
            ctls += [[[a, 0], [b, 1]], [[a, 1], [b, 0]], [[b, 0], [a, 1]], [[a, 1], [b, 1]]]
        var("x", [q], [None], ctls)
        var("h", [q], [None], ctls)
        var("r", [q], [[0, 1, 0.7, 0.4], [0, d - 1, 0.7, 0.4], [0, 1, 0.7, -0.4], [0, 1, 0.4, 0.7], [0, 1, -0.7, 0.4], [1, 0, 0.7, 0.4]], ctls[:2])
        var("rz", [q], [[0, 1, 0.7], [0, 1, -0.7], [d - 2, d - 1, 0.7]], ctls[:2])
        var("virtrz", [q], [[0, 0.7], [0, -0.7], [d - 1, 0.7]], ctls[:2])
        var("cu_one", [q], ["u1", "u2"], ctls[:2])
        if d > 2:
            var("pm", [q], [list(range(1, d)) + [0], [d - 1, *range(d - 1)], [1, 0, *range(2, d)]])
    for a, b in itertools.combinations(range(n), 2):
        sw = [[[a, b]], [[b, a]]]
        fams.append([["csum", t[0], None, None, dag] for t in sw for dag in (False, True)])
        fams.append([["ms", t[0], [p], None, dag] for t in sw for p in (0.8, 0.3) for dag in (False, True)])
        fams.append([["ls", t[0], [p], None, dag] for t in sw for p in (0.8, 0.3) for dag in (False, True)])
        fams.append([["cx", t[0], p, None, dag] for t in sw for dag in (False, True)
                     for p in ([0, 1, 0, 0.6], [0, 1, 1, 0.6], [0, 1, 1, -0.6 % 3.0], [0, dims[t[0][1]] - 1, dims[t[0][0]] - 1, 0.6])])
        fams.append([["cu_two", [a, b], p, None, dag] for p in ("u1", "u2") for dag in (False, True)])
    out = []
    for f in fams:
        seen = []
        for s in f:
            if s not in seen:
                seen.append(s)
        out.append(seen)
    return out


def twin_programs(dims, lines, every=1):
    """Programs of two near-identical gates on the same lines, and (local gates, equal lines) of one gate on each line."""
    out = []
    for fam in twins(dims):
        fam = [s for s in fam if not s[3] and len(s[1]) == lines]
        out += [[s, t] for s, t in itertools.permutations(fam, 2)][::every]
        if lines == 1 and fam and dims.count(dims[0]) == len(dims) > 1:
            s = fam[-1]
            out += [[s, [s[0], [q], *s[2:]]] for q in range(len(dims)) if q != s[1][0]]
    return out
