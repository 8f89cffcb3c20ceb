"""C29: the built-in verifiers, reference simulators, fidelities and angle helpers give the right answer."""
from __future__ import annotations

import itertools
import math
import warnings

import numpy as np

from mc import gates as G, ref
from mc.core import require

PROPERTY = "C29"
RULE = ("every gate sequence up to a length x every pair of level maps x every target for the unitary verifier; every sequence for the reference "
        "simulators; every pair of operators and states from a finite family for the fidelities; every angle of a grid for the angle helpers")
BOUNDS = {
    "quick": "sequences of up to 2 gates from 7 on dims 2-3 with all maps, two-line registers, angle grid of step pi/24 over +-10 pi",
    "thorough": "sequences of up to 3, dims 2-4 (dim 4 with 2 gates), angle grid of step pi/96",
}
ASSUMPTIONS = ["operators differing by less than the verifier's tolerance are not judged"]
CASE_LIMIT_S = 300

NAMES = ["h", "x", "z", "s", "r", "rz", "virtrz", "cu_one"]


def alphabet(d):
    out = [["h", [0], [], None, False], ["x", [0], [], None, False], ["x", [0], [], None, True], ["z", [0], [], None, False],
           ["r", [0], [0, d - 1, 1.1, 0.4], None, False], ["virtrz", [0], [d - 1, 0.7], None, False], ["cu_one", [0], "rand", None, True]]
    if d == 2:
        out.append(["s", [0], [], None, True])
    return out


def cases(tier, seed):
    deep = tier == "thorough"
    for d in (2, 3, 4) if deep else (2, 3):
        n = len(alphabet(d))
        top = 2 if d == 4 or not deep else 3
        for k in range(top + 1):
            for seq in itertools.product(range(n), repeat=k):
                if k == 2 and d == 3 and not deep and (seq[0] + 2 * seq[1]) % 2:
                    continue
                yield {"kind": "verify", "d": d, "seq": list(seq)}
    for seq in itertools.product(range(4), repeat=2):
        for dims in ([2, 2], [2, 3], [3, 2]):
            yield {"kind": "verify2", "dims": dims, "seq": list(seq)}
    for dims in ([2], [3], [2, 3], [3, 2], [2, 2, 2], [2, 3, 2]):
        for first in range(5):
            yield {"kind": "sim", "dims": dims, "first": first, "depth": 3 if deep else 2}
    for d in (2, 3, 4):
        yield {"kind": "phy", "d": d}
    for d in (2, 3, 4, 6):
        yield {"kind": "fidelity", "d": d}
    step = 96 if deep else 24
    for part in range(20):
        yield {"kind": "angles", "from": part * step - 10 * step, "to": (part + 1) * step - 10 * step, "step": step}


def check(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["check_" + case["kind"]](case, rec)


def permutation(nodes, mapping):
    d = len(nodes)
    p = np.zeros((d, d))
    for a, b in zip(nodes, mapping):
        p[b, a] = 1
    return p


def apart(a):
    """How far an operator is from a phase times the identity."""
    if abs(a[0][0]) < 1e-9:
        return 1.0
    return float(np.max(abs(a / a[0][0] - np.eye(len(a)))))


def check_verify(case, rec):
    from mqt.qudits.compiler.compilation_minitools import UnitaryVerifier
    from mqt.qudits.quantum_circuit import QuantumCircuit

    d = case["d"]
    specs = [alphabet(d)[i] for i in case["seq"]]
    c = QuantumCircuit(1, [d], 0)
    gates = [G.put(c, s) for s in specs]
    total = np.eye(d, dtype=complex)
    for s in specs:
        total = G.ref_full(s, [d]) @ total
    maps = list(itertools.permutations(range(d)))
    few = d == 4
    targets = {"id": np.eye(d, dtype=complex), "inv": np.exp(0.8j) * total.conj().T, "other": G.unitary("rand", d)}
    for i, f in itertools.product(maps, maps):
        if few and (maps.index(i) + maps.index(f)) % 5:
            continue
        for nodes in ([list(range(d)), list(range(1, d)) + [0]] if len(specs) < 2 and not few else [list(range(d))]):
            pi, pf = permutation(nodes, i), permutation(nodes, f)
            targets["exact"] = np.exp(-0.3j) * pi.T @ total.conj().T @ pf
            near = targets["exact"].copy()
            near = near @ np.diag([1] * (d - 1) + [np.exp(0.01j)])
            targets["near"] = near
            for name, m in targets.items():
                t = c.cu_one(0, m)
                v = UnitaryVerifier(gates, t, [d], nodes, list(i), list(f))
                got = v.verify()
                again = v.verify()
                dist = apart(pf.T @ total @ pi @ m)
                what = f"d={d} {case['seq']} nodes {nodes} maps {i} {f} target {name}"
                require(isinstance(got, bool) and got == again, "the verdict is not stable: " + what, what)
                if dist < 1e-6 or dist > 1e-3:
                    require(got == (dist < 1e-6), f"verdict {got} although the operators are {dist:.2g} apart: " + what, what)
                rec.step()
                rec.state((d, tuple(case["seq"]), tuple(nodes), i, f, name, got))
    for name in ("id", "inv", "other"):
        t = c.cu_one(0, targets[name])
        got = UnitaryVerifier(gates, t, [d]).verify()
        dist = apart(total @ targets[name])
        require(got == (dist < 1e-6), f"verdict {got} without maps, distance {dist:.2g}", f"d={d} {case['seq']} {name}")
    rec.trace()


def check_verify2(case, rec):
    from mqt.qudits.compiler.compilation_minitools import UnitaryVerifier
    from mqt.qudits.quantum_circuit import QuantumCircuit

    dims = case["dims"]
    n = dims[0] * dims[1]
    names = ["id", "diag", "rand", "perm"]
    c = QuantumCircuit(2, list(dims), 0)
    mats = [G.unitary(names[i], n) for i in case["seq"]]
    gates = [c.cu_two([0, 1], m) for m in mats]
    total = np.eye(n, dtype=complex)
    for m in mats:
        total = m @ total
    for tname, m in (("exact", 1j * total.conj().T), ("forward", total), ("id", np.eye(n, dtype=complex)), ("reversed", (mats[0] @ mats[1]).conj().T)):
        got = UnitaryVerifier(gates, c.cu_two([0, 1], m), dims).verify()
        dist = apart(total @ m)
        what = f"{dims} {case['seq']} {tname}"
        if dist < 1e-6 or dist > 1e-3:
            require(got == (dist < 1e-6), f"verdict {got}, distance {dist:.2g}: " + what, what)
        rec.step()
        rec.state(what)
    rec.trace()


def sims(dims):
    n = len(dims)
    out = [["h", [n - 1], [], None, False], ["r", [0], [0, 1, 0.9, 0.3], None, True]]
    if n > 1:
        out += [["cx", [n - 1, 0], [0, 1, 1, 0.4], None, False], ["ms", [0, n - 1], [0.8], None, False],
                ["rz", [0], [0, 1, 0.5], [[n - 1, 1]], True], ["cu_two", [0, 1], "rand", None, False]]
    else:
        out += [["x", [0], [], None, False], ["virtrz", [0], [1, 0.6], None, True], ["cu_one", [0], "rand", None, False]]
    return out


def check_sim(case, rec):
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import mini_sim, mini_unitary_sim
    from mqt.qudits.quantum_circuit import QuantumCircuit

    dims = case["dims"]
    specs = sims(dims)
    for rest in itertools.product([None, *range(len(specs))], repeat=case["depth"]):
        seq = [case["first"]] + [x for x in rest if x is not None]
        c = QuantumCircuit(len(dims), list(dims), 0)
        gates = [G.put(c, specs[i]) for i in seq]
        want = np.eye(int(np.prod(dims)), dtype=complex)
        for i in seq:
            want = G.ref_full(specs[i], dims) @ want
        what = f"{dims} {seq}"
        require(np.allclose(mini_unitary_sim(c, gates), want, atol=1e-8), "mini_unitary_sim: " + what, what)
        require(np.allclose(mini_unitary_sim(c, gates[:1]), G.ref_full(specs[seq[0]], dims), atol=1e-8), "mini_unitary_sim of one gate: " + what, what)
        require(np.allclose(mini_sim(c), want[:, 0], atol=1e-8), "mini_sim: " + what, what)
        require([id(g) for g in c.instructions] == [id(g) for g in gates], "instructions changed: " + what, what)
        rec.step(len(seq))
        rec.trace()
        rec.state(what)


def check_phy(case, rec):
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import phy_sdit_sim
    from mqt.qudits.quantum_circuit import QuantumCircuit

    d = case["d"]
    for mapping in itertools.permutations(range(d)):
        for k in range(3):
            for seq in itertools.product(range(len(alphabet(d))), repeat=k):
                c = QuantumCircuit(1, [d], 0)
                for i in seq:
                    G.put(c, alphabet(d)[i])
                c.set_mapping([list(mapping)])
                state = np.eye(d)[mapping[0]].astype(complex)
                for i in seq:
                    state = G.ref_full(alphabet(d)[i], [d]) @ state
                what = f"{d} {mapping} {seq}"
                require(np.allclose(phy_sdit_sim(c), state, atol=1e-8), "phy_sdit_sim: " + what, what)
                rec.step()
                rec.state(what)
    rec.trace()


def check_fidelity(case, rec):
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt.distance_measures import (
        fidelity_on_density_operator, fidelity_on_operator, fidelity_on_unitares, naive_state_fidelity, size_check)

    d = case["d"]
    us = [np.exp(1j * a) * G.unitary(t, d) for t in ("id", "diag", "perm", "rand", "real") for a in (0, 1.0, np.pi)]
    for a, b in itertools.product(us, us):
        want = abs(np.vdot(a, b)) / d
        for f in (fidelity_on_unitares, fidelity_on_operator):
            got = complex(f(a, b))
            require(abs(got - want) < 1e-9, f"{f.__name__} {got} instead of {want}", f"{f.__name__} {d}")
            require(abs(complex(f(b, a)) - got) < 1e-9, f"{f.__name__} is not symmetric", f"{f.__name__} {d}")
        got = complex(fidelity_on_operator(2.5 * a, 0.5j * b))
        require(abs(got - want) < 1e-9, f"fidelity_on_operator depends on the scale: {got}", f"operator scale {d}")
        rec.step(3)
    states = [u[:, k] for u in us for k in range(d)]
    for a, b in itertools.product(states[:: max(1, len(states) // 20)], states):
        want = abs(np.vdot(a, b)) ** 2
        got = naive_state_fidelity(a, b)
        require(abs(got - want) < 1e-9, f"naive_state_fidelity {got} instead of {want}", f"state {d}")
        ra, rb = np.outer(a, a.conj()), np.outer(b, b.conj())
        got = complex(fidelity_on_density_operator(ra, rb))
        require(abs(got - want) < 1e-9, f"fidelity_on_density_operator {got} instead of {want} on pure states", f"density {d}")
        mixed = 0.5 * ra + 0.5 * np.eye(d) / d
        got = complex(fidelity_on_density_operator(mixed, rb))
        w = abs(np.trace(mixed @ rb)) / math.sqrt(np.trace(mixed @ mixed).real * np.trace(rb @ rb).real)
        require(abs(got - w) < 1e-9, f"fidelity_on_density_operator {got} instead of {w} on mixed states", f"density {d}")
        rec.step(3)
    for f, sizes in ((fidelity_on_unitares, (d, d + 1)), (fidelity_on_operator, (d, d + 1)), (fidelity_on_density_operator, (d, d + 1))):
        try:
            f(np.eye(sizes[0], dtype=complex), np.eye(sizes[1], dtype=complex))
            ok = False
        except ValueError:
            ok = True
        require(ok, f"{f.__name__} accepted different shapes", f"shape {f.__name__}")
    try:
        naive_state_fidelity(np.ones(d), np.ones(d + 1))
        ok = False
    except ValueError:
        ok = True
    require(ok, "naive_state_fidelity accepted different shapes", "shape state")
    require(size_check(np.eye(d), np.eye(d)) is True and size_check(np.ones((d, d + 1)), np.ones((d, d + 1))) is False and size_check(np.eye(d), np.eye(d + 1)) is False, "size_check", "size")
    rec.trace()
    rec.state(d)


def check_angles(case, rec):
    from mqt.qudits.compiler.compilation_minitools import local_compilation_minitools as L

    eps = 1e-9
    for k in range(case["from"], case["to"] + 1):
        a = k * math.pi / case["step"]
        same = lambda x, y, b: abs(math.remainder(x - y, b)) < 1e-7  # noqa: E731
        for b in (2 * math.pi, 4 * math.pi, math.pi):
            v = L.new_mod(a, b)
            require(same(v, a, b) and abs(v) < b + eps and (v == 0 or v * a > 0 or abs(abs(v) - b) < 1e-7 or abs(v) < 1e-7), f"new_mod({a}, {b}) = {v}", f"new_mod {k}")
        v = L.new_mod(a)
        require(same(v, a, 2 * math.pi) and abs(v) <= 2 * math.pi + eps, f"new_mod({a}) = {v}", f"new_mod {k}")
        v = L.pi_mod(a)
        require(same(v, a, 2 * math.pi) and abs(v) <= math.pi + eps, f"pi_mod({a}) = {v}", f"pi_mod {k}")
        v = L.regulate_theta(a)
        require(same(v, a, 4 * math.pi) and abs(v) > 0.2 * math.pi - 1e-7 and abs(v) <= 4.2 * math.pi + eps, f"regulate_theta({a}) = {v}", f"regulate {k}")
        rec.step(5)
        rec.state(k)
        # costs grow with the rotation, do not depend on its sense, vanish at rest and are never negative
        for f in (L.phi_cost, L.theta_cost):
            require(abs(f(a) - f(-a)) < 1e-15 and f(a) >= 0 and (f(a) > 0) == (k != 0), f"{f.__name__}({a}) = {f(a)}", f"{f.__name__} {k}")
        require(abs(L.phi_cost(a) - 1e-4 * abs(a) / math.pi) < 1e-15, f"phi_cost({a})", f"phi_cost {k}")
        u = abs(a) / math.pi
        err = abs((u + 0.25) % 0.5 - 0.25)
        require(abs(L.theta_cost(a) - 1e-4 * (4 * u + err)) < 1e-12, f"theta_cost({a}) = {L.theta_cost(a)}", f"theta_cost {k}")
    for n in range(2, 5):
        for i, j in itertools.product(range(n), repeat=2):
            lst = list("abcd"[:n])
            want = list(lst)
            want[i], want[j] = want[j], want[i]
            require(L.swap_elements(lst, i, j) == want, f"swap_elements {i} {j}", f"swap {n} {i} {j}")
    rec.trace()
