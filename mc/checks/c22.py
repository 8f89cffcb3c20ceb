"""C22: noisy circuits sampled for a noise model average to the declared noise channel."""
from __future__ import annotations

import itertools

import numpy as np

from mc import gates as G
from mc import ref
from mc.chance import Enumerator, Unsupported, controlled
from mc.core import require

PROPERTY = "C22"
RULE = ("every gate of a menu x declared noise x mode on every line choice (and pairs of rules, pairs of gates): all random outcomes of "
        "generate_circuit are enumerated and their weighted average channel is compared with the analytic channel of the declaration")
BOUNDS = {"quick": "dimensions 2..3 on 1..3 lines (4 and 5 on one line), up to 2 rules, up to 2 gates, two calls on one factory; at most 1500 outcomes per case",
          "thorough": "dimensions 2..4, 3 rules, 3 gates; at most 20000 outcomes per case"}
ASSUMPTIONS = ["random numbers come from numpy generators made by numpy.random.default_rng",
               "the operators of the inserted noise gates are judged by C01"]
CASE_LIMIT_S = 300
NOISE = {
    "m": ("math", 0.36, 0.0), "m1": ("math", 1.0, 0.0), "mz": ("math", 0.0, 0.5),
    "01": ("sub", 0.4, 0.3, [(0, 1)]), "12": ("sub", 0.8, 1.0, [(1, 2)]), "02": ("sub", 0.0, 0.25, [(2, 0)]),
    "01,12": ("sub", 0.2, 0.1, [(0, 1), (1, 2)]), "01;02": ("sub", (0.2, 0.7), (0.4, 0.1), [(0, 1), (0, 2)]), "dyn": ("sub", 0.6, 0.2, []), "dyn1": ("sub", 1.0, 0.0, []),
}
MODES = ["local", "all", "nonlocal", "target", "control"]


def singles(d, line):
    out = [["x", [line], None, None, False], ["z", [line], None, None, True], ["h", [line], None, None, False],
           ["r", [line], [0, 1, 0.7, 0.3], None, False], ["rz", [line], [d - 2, d - 1, 0.9], None, False],
           ["rh", [line], [0, d - 1], None, False], ["virtrz", [line], [d - 1, 0.6], None, False], ["s", [line], None, None, False]]
    if d > 2:
        out += [["r", [line], [2, 0, 1.1, -0.4], None, True], ["cu_one", [line], "u", None, False]]
    return out


def twos(dims, a, b):
    out = [["csum", [a, b], None, None, False], ["cu_two", sorted((a, b)), "u", None, False],
           ["cx", [a, b], [0, 1, 1, 0.3], None, True], ["ls", [a, b], [0.7], None, False], ["ms", [a, b], [0.5], None, False],
           ["x", [b], None, [[a, 1]], False], ["r", [b], [dims[b] - 2, dims[b] - 1, 0.7, 0.3], [[a, 0]], False]]
    if dims[b] > 2:
        out += [["cx", [a, b], [0, 2, 0, 0.3], None, False]]
    return out


def multis(dims, p):
    a, b, c = p
    return [["cu_multi", sorted(p), "u", None, False], ["x", [c], None, [[a, 1], [b, 0]], False], ["z", [b], None, [[a, 0], [c, 1]], False]]


def cases(tier, seed):
    deep = tier == "thorough"
    cap = 20000 if deep else 1500
    one, rules = [], []
    for dims in ([[2], [3], [4]] if deep else [[2], [3]]):
        one += [(dims, s) for s in singles(dims[0], 0)]
    for dims in ([[2, 3], [3, 2], [2, 2], [3, 3]] if deep else [[2, 3], [3, 2], [2, 2]]):
        for a, b in ((0, 1), (1, 0)):
            one += [(dims, s) for s in singles(dims[a], a)[:: 1 if deep else 3]]
            one += [(dims, s) for s in twos(dims, a, b)]
    for dims in ([[2, 2, 2], [2, 3, 2]] if deep else [[2, 2, 2]]):
        for p in itertools.permutations(range(3)):
            one += [(dims, s) for s in multis(dims, p)]
            one += [(dims, s) for s in twos(dims, p[0], p[1])[:: 1 if deep else 3]]
        one += [(dims, s) for s in singles(2, 1)[::3]]
    for dims, s in one:
        for mode in MODES:
            for n in NOISE:
                if n == "01;02" and s[0] not in ("x", "r", "csum", "cx", "cu_multi"):
                    continue
                if n == "mz" and (s[0] != "x" or dims != [3]):
                    continue
                c = {"dims": dims, "gates": [s], "rules": [[s[0], mode, n]], "cap": cap}
                if outcomes(c) <= cap:
                    yield c
    for dims, menu in (([3], singles(3, 0)), ([2, 2], [*twos([2, 2], 0, 1), singles(2, 1)[0], singles(2, 0)[3]])):
        for s, t in itertools.product(menu, repeat=2):
            for (m1, n1), (m2, n2) in itertools.product([("local", "01"), ("target", "dyn"), ("all", "m")], repeat=2):
                if s[0] == t[0] and m1 == m2:
                    continue
                c = {"dims": dims, "gates": [s, t], "rules": [[s[0], m1, n1], [t[0], m2, n2]], "cap": cap}
                if outcomes(c) <= cap:
                    yield c
    # larger levels, and three lines that all have levels outside the subspace
    for d in (4, 5):
        for i in (0, 3, 4):
            for mode in ("local", "target"):
                for n in ("m", "12", "dyn"):
                    yield {"dims": [d], "gates": [singles(d, 0)[i]], "rules": [[singles(d, 0)[i][0], mode, n]], "cap": cap}
    for s, mode in ((singles(3, 1)[0], "all"), (["cu_multi", [0, 1, 2], "u", None, False], "local"), (["x", [2], None, [[1, 1], [0, 0]], False], "local"),
                    (["csum", [2, 0], None, None, False], "all")):
        yield {"dims": [3, 3, 3], "gates": [s], "rules": [[s[0], mode, "02"]], "cap": cap}
    if deep:
        for trio in itertools.product(singles(3, 0)[:6], repeat=3):
            c = {"dims": [3], "gates": list(trio), "rules": [[trio[0][0], "local", "01"], [trio[1][0], "target", "dyn"], [trio[2][0], "all", "dyn"]], "cap": cap}
            if outcomes(c) <= cap:
                yield c
    for mode, (dims, s) in itertools.product(MODES, [([3], ["x", [0], None, None, False]), ([2, 2], ["csum", [1, 0], None, None, False])]):
        c = {"dims": dims, "gates": [s], "rules": [[s[0], mode, "01"]], "cap": cap, "calls": 2}
        yield c
    yield {"dims": [3], "gates": [singles(3, 0)[0]], "rules": [["z", "local", "01"]], "cap": cap}
    yield {"dims": [3, 2], "gates": [], "rules": [["z", "all", "m"]], "cap": cap}


# ---- reference -----------------------------------------------------------------------------------

def affected(spec, mode, n):
    """Lines a rule acts on, or None when the mode does not exist for the gate."""
    ctl = [c[0] for c in spec[3] or []]
    lines = ctl + list(spec[1])
    if mode == "local":
        return lines
    if mode == "all":
        return list(range(n))
    if mode == "nonlocal":
        return lines if len(lines) > 1 else None
    if mode == "control":
        return lines[:1] if len(lines) == 2 else None
    return lines[max(1, len(ctl)):] if len(lines) > 1 else lines


TAGS = {"r": "rxy", "cu_one": "cuone", "cu_two": "cutwo", "cu_multi": "cumulti"}
BLOCK = {"r", "rz", "rh", "cx"}


def subspaces(spec, noise):
    if noise[3]:
        return [(min(p), max(p)) for p in noise[3]]
    if spec[0] in BLOCK:
        p = spec[2]
        return [(min(p[0], p[1]), max(p[0], p[1]))]
    return [(-2, -1)]


def own(prob, k):
    """The probability of the k-th level pair."""
    return prob[k] if isinstance(prob, tuple) else prob


def plan(case):
    """Per gate: the list of (kind, line, d, levels, probability) steps, or None when it must be refused."""
    dims, out = case["dims"], []
    for spec in case["gates"]:
        steps = []
        for tag, mode, name in merged(case["rules"]):
            if tag != spec[0]:
                continue
            noise, lines = NOISE[name], affected(spec, mode, len(dims))
            if lines is None:
                return None
            if noise[0] == "math":
                steps += [("full", q, dims[q], None, noise[1]) for q in lines] + [("zz", q, dims[q], None, noise[2]) for q in lines]
                continue
            subs = subspaces(spec, noise)
            for q in lines:
                for a, b in subs:
                    if a < 0 or b >= dims[q]:
                        return None
                steps += [("depol", q, dims[q], pair, own(noise[1], k)) for k, pair in enumerate(subs)]
            for q in lines:
                for k, (a, b) in enumerate(subs):
                    steps += [("phase", q, dims[q], lev, own(noise[2], k)) for lev in range(dims[q]) if lev not in (a, b)]
        out.append(steps)
    return out


def merged(rules):
    """Rules in the order of the model: by first declaration of the mode of a gate."""
    return rules


def outcomes(case):
    p = plan(case)
    if p is None:
        return 1
    n = 1
    for steps in p:
        for kind, _q, d, _l, pr in steps:
            n *= 1 if pr == 0 else (d * d if kind == "full" else (1 if pr == 1 else 2) if kind in ("phase", "zz") else 4)
            if n > 10**7:
                return n
    return n ** case.get("calls", 1)


def superop(u):
    return np.kron(u, u.conj())


def mix(dims, q, ops):
    return sum(w * superop(ref.embed(m, [q], dims)) for w, m in ops if w)


def channel(case):
    dims = case["dims"]
    n = int(np.prod(dims))
    out = np.eye(n * n, dtype=complex)
    for spec, steps in zip(case["gates"], plan(case)):
        out = superop(G.ref_full(spec, dims)) @ out
        for kind, q, d, lev, p in steps:
            if kind == "full":
                xs, zs = ref.x(d), ref.z(d)
                ops = [(1 - p, np.eye(d))] + [(p / d / d, np.linalg.matrix_power(xs, i) @ np.linalg.matrix_power(zs, j)) for i in range(d) for j in range(d)]
            elif kind == "zz":
                continue
            elif kind == "phase":
                ops = [(1 - p, np.eye(d)), (p, G.base_matrix(["noisez", [0], [lev], None, False], [d]))]
            else:
                a, b = lev
                ops = [(1 - 0.75 * p, np.eye(d))] + [(p / 4, G.base_matrix(s, [d])) for s in (
                    ["noisex", [0], [a, b], None, False], ["noisey", [0], [a, b], None, False], ["noisez", [0], [b], None, False])]
            out = mix(dims, q, ops) @ out
    return out


# ---- exploration ---------------------------------------------------------------------------------

def noise_object(name):
    from mqt.qudits.simulation.noise_tools import Noise, SubspaceNoise

    n = NOISE[name]
    if n[0] == "math":
        return Noise(n[1], n[2])
    if not isinstance(n[1], tuple):
        return SubspaceNoise(n[1], n[2], [tuple(p) for p in n[3]])
    noise = SubspaceNoise(n[1][0], n[2][0], n[3][0])
    for p, q, pair in zip(n[1][1:], n[2][1:], n[3][1:]):
        noise.add_noise(*pair, Noise(p, q))
    return noise


ADD = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
       "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control"}


def signature(circ):
    out = []
    for g in circ.instructions:
        p = getattr(g, "_params", None)
        out.append((type(g).__name__, g.qasm_tag, str(g.target_qudits), str(g.control_info["controls"]), str(g.control_info["params"])[:200], g.dagger, str(p)[:200]))
    return tuple(out)


def check(case, rec):
    from mqt.qudits.simulation.noise_tools import NoiseModel, NoisyCircuitFactory

    dims, calls = case["dims"], case.get("calls", 1)
    key = f"{dims} {case['gates']} {case['rules']}" + (f" x{calls}" if calls > 1 else "")
    circ = G.build(dims, case["gates"])
    model = NoiseModel()
    for (tag, mode, name), qt in zip(case["rules"], [tag_of(case, r[0]) for r in case["rules"]]):
        getattr(model, ADD[mode])(noise_object(name), [qt])
    before, tags = signature(circ), str(model)
    expected = plan(case)
    enum = Enumerator(limit=case["cap"] * 40)
    total, avg, cache, n_out = 0.0, None, {}, 0
    chance = controlled(enum.pick, enum.generator)
    chance.__enter__()

    def program():
        factory = NoisyCircuitFactory(model, circ)
        try:
            return [factory.generate_circuit() for _ in range(calls)]
        except (ValueError, IndexError, TypeError) as e:
            return e

    try:
        for w, res in enum.runs(program):
            rec.step()
            n_out += 1
            if expected is None:
                require(isinstance(res, (ValueError, IndexError)), lambda: f"the model cannot be applied but the circuit was made (or failed with {res!r})", key)
                require(signature(circ) == before, "a refused sampling changed the circuit", key)
                rec.count("refused")
                return
            require(not isinstance(res, Exception), lambda: f"refused: {res!r}", key)
            sig = tuple(signature(c) for c in res)
            if sig not in cache:
                require(signature(circ) == before and str(model) == tags, "sampling changed the circuit or the noise model", key)
                prod = []
                for c in res:
                    require(list(c.dimensions) == dims and c.num_qudits == len(dims), "the sampled circuit has other lines", key)
                    require(c.number_gates == len(c.instructions), lambda: f"number_gates {c.number_gates}, {len(c.instructions)} instructions", key)
                    own = {id(g) for g in circ.instructions}
                    require(not any(id(g) in own for g in c.instructions), "the sampled circuit holds the original's gate objects", key)
                    orig = iter(before)
                    nxt = next(orig, None)
                    for s in signature(c):
                        if s == nxt:
                            nxt = next(orig, None)
                    require(nxt is None, "the original gates are not all there in order", key)
                    prod.append(superop(G.implemented_unitary(c)))
                op = prod[0]
                for m in prod[1:]:
                    op = np.kron(op, m)
                cache[sig] = op
            total += w
            avg = w * cache[sig] if avg is None else avg + w * cache[sig]
    except Unsupported:
        rec.count("uncontrolled")
        return
    finally:
        chance.__exit__()
    require(abs(total - 1) < 1e-7, lambda: f"outcome probabilities sum to {total}", key)
    want = one = channel(case)
    for _ in range(calls - 1):
        want = np.kron(want, one)
    diff = np.abs(avg - want).max()
    if diff >= 1e-7 and not enum.draws:  # chance from a source that is not controlled?
        seen = {tuple(signature(c) for c in program()) for _ in range(60)}
        if len(seen) > 1:
            rec.count("uncontrolled")
            return
    require(diff < 1e-7, lambda: f"the average over all {n_out} outcomes differs from the declared channel by {diff:.3g}", key)
    if any(k == "zz" and p > 0 for steps in expected for k, _q, _d, _l, p in steps):
        rec.count("math dephasing")
        require(np.abs(avg - ideal(case)).max() > 1e-3, "declared dephasing has no effect", f"math dephasing: {case['gates'][0][0]} {dims} {case['rules'][0][1]}")
    rec.count("outcomes", n_out)
    rec.state((key, len(cache)))
    rec.trace()


def ideal(case):
    return superop(G.ref_circuit(case["gates"], case["dims"]))


def tag_of(case, name):
    circ = G.build(case["dims"], [s for s in case["gates"] if s[0] == name][:1])
    return circ.instructions[0].qasm_tag if circ.instructions else TAGS.get(name, name)
