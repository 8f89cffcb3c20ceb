"""C21: a noise model holds exactly the noise that was declared for each gate and mode."""
from __future__ import annotations

import itertools

from mc.core import require

PROPERTY = "C21"
RULE = ("every history of declaring noise (six noise objects kept by the caller x gate lists x modes) on a noise model, and every history of "
        "building one subspace noise; after each operation the model, the caller's objects and refusals are compared with a reference")
BOUNDS = {"quick": "3 declarations from 40 (2 from 150 over all five modes); 3 operations on a subspace noise",
          "thorough": "4 declarations from 24; 3 from 60; 4 operations on a subspace noise"}
ASSUMPTIONS = ["the declared noise is read from quantum_errors and subspace_w_probs, and from the printed form"]
BATCH = 8

OBJECTS = {
    "N": ("math", 0.1, 0.2),
    "M": ("math", 0.5, 0.0),
    "S01": ("sub", 0.3, 0.4, (0, 1)),
    "S21": ("sub", 0.6, 0.1, (2, 1)),
    "SL": ("sub", 0.2, 0.7, [(0, 1), (0, 2)]),
    "SD": ("sub", 0.05, 0.15, []),
}
MODES = ["local", "all", "nonlocal", "target", "control"]
ADD = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
       "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control"}
SUB_STARTS = [(0, 1), (1, 0), (1, 1), [(0, 1), (1, 2)], [(0, 1), (1, 0)], [(2, 0), (2, 2)], []]
SUB_OPS = [("add", 0, 1), ("add", 1, 0), ("add", 2, 1), ("add", 2, 2), ("add", -2, -1), ("add", -1, -2),
           ("many", [(1, 2), (0, 2)]), ("many", [(0, 2), (1, 0)]), ("many", [(0, 3), (3, 3)]), ("many", [(-2, -1)]), ("many", [])]


def menu(objs, gates, modes):
    return [[o, g, m] for o in objs for g in gates for m in modes]


def cases(tier, seed):
    deep = tier == "thorough"
    wide = menu(OBJECTS, [["x"], ["x", "z"], ["z", "x"], ["z", "cx", "x"], ["x", "x"]], MODES)
    mid = menu(OBJECTS, [["x"], ["z"], ["x", "z"], ["z", "x"], ["z", "csum", "x"]] if deep else [["x"], ["z", "x"], ["x", "z"]], ["local", "all"])
    core = menu(["N", "S01", "S21", "SL"], [["x"], ["z", "x"], ["x", "z"]], ["local", "target"])
    for a in wide:
        yield {"kind": "model", "pre": [a], "menu": "wide", "depth": 2}
    for a in mid:
        for b in mid:
            yield {"kind": "model", "pre": [a, b], "menu": "mid+" if deep else "mid", "depth": 3}
    if deep:
        for a, b in itertools.product(core, repeat=2):
            yield {"kind": "model", "pre": [a, b], "menu": "core", "depth": 4}
    yield {"kind": "many"}
    for s in SUB_STARTS:
        for o in SUB_OPS:
            yield {"kind": "sub", "start": s, "pre": [o], "depth": 4 if deep else 3}


def full_menu(name):
    if name == "wide":
        return menu(OBJECTS, [["x"], ["x", "z"], ["z", "x"], ["z", "cx", "x"], ["x", "x"]], MODES)
    if name == "core":
        return menu(["N", "S01", "S21", "SL"], [["x"], ["z", "x"], ["x", "z"]], ["local", "target"])
    return menu(OBJECTS, [["x"], ["z"], ["x", "z"], ["z", "x"], ["z", "csum", "x"]] if name == "mid+" else [["x"], ["z", "x"], ["x", "z"]], ["local", "all"])


# ---- reference -----------------------------------------------------------------------------------

def merge_sub(have, pairs, probs):
    """Reference of adding subspaces to a subspace noise; None when it must be refused."""
    out = dict(have)
    for (a, b), pr in zip(pairs, probs):
        a, b = min(a, b), max(a, b)
        dyn = a < 0
        if a == b or (a, b) in out or (out and (dyn or any(k[0] < 0 for k in out))):
            return None
        out[a, b] = pr
    return out


def ref_object(name):
    o = OBJECTS[name]
    if o[0] == "math":
        return ("math", o[1], o[2])
    pairs = [o[3]] if isinstance(o[3], tuple) else (o[3] or [(-2, -1)])
    return ("sub", merge_sub({}, pairs, [(o[1], o[2])] * len(pairs)))


def declare(model, op):
    name, gates, mode = op
    new = {g: dict(m) for g, m in model.items()}
    obj = ref_object(name)
    for g in gates:
        slot = new.setdefault(g, {})
        if mode not in slot:
            slot[mode] = obj
        elif obj[0] == "math" or slot[mode][0] == "math":
            return None
        else:
            got = merge_sub(slot[mode][1], list(obj[1]), list(obj[1].values()))
            if got is None:
                return None
            slot[mode] = ("sub", got)
    return new


# ---- implementation ------------------------------------------------------------------------------

def make(name):
    from mqt.qudits.simulation.noise_tools import Noise, SubspaceNoise

    o = OBJECTS[name]
    return Noise(o[1], o[2]) if o[0] == "math" else SubspaceNoise(o[1], o[2], list(o[3]) if isinstance(o[3], list) else o[3])


def read(obj):
    from mqt.qudits.simulation.noise_tools import Noise

    if isinstance(obj, Noise):
        return ("math", obj.probability_depolarizing, obj.probability_dephasing)
    return ("sub", {tuple(k): (n.probability_depolarizing, n.probability_dephasing) for k, n in obj.subspace_w_probs.items()})


def read_model(model):
    return {g: {m: read(e) for m, e in modes.items()} for g, modes in model.quantum_errors.items() if modes}


def printed(model):
    """The printed form must name every declared probability and subspace."""
    def one(o):
        if o[0] == "math":
            return f"{o[1]} {o[2]}"
        return "".join(f"{a}<->{b}:{p} {q}, " for (a, b), (p, q) in o[1].items())
    return "NoiseModel Info:\n" + "".join(f"Gate: {g}, Mode: {m}, SubspaceNoise: {one(o)}\n" for g, ms in model.items() for m, o in ms.items())


def run_model(ops, rec):
    from mqt.qudits.simulation.noise_tools import NoiseModel

    real, ref = NoiseModel(), {}
    held = {n: make(n) for n in OBJECTS}
    key = " ; ".join(f"{o}->{','.join(g)}:{m}" for o, g, m in ops)
    for i, op in enumerate(ops):
        want = declare(ref, op)
        try:
            getattr(real, ADD[op[2]])(held[op[0]], list(op[1]))
            ok = True
        except (ValueError, AssertionError, TypeError):
            ok = False
        rec.step()
        if i + 1 < len(ops) and i + 1 < len(ops) - 1:
            ref = ref if want is None else want
            continue
        require(ok == (want is not None), lambda: f"declaration {i + 1} is {'accepted' if ok else 'refused'}, the rules say the opposite", key)
        ref = ref if want is None else want
        got = read_model(real)
        require(got == ref, lambda: f"after declaration {i + 1} the model holds {got}, declared was {ref}", key)
        for n, o in held.items():
            require(read(o) == ref_object(n), lambda: f"after declaration {i + 1} the caller's noise {n} became {read(o)}", key)
    require([g for g in real.basis_gates if real.quantum_errors[g]] == list(ref), lambda: f"basis_gates {real.basis_gates}, declared for {list(ref)}", key)
    require(str(real) == printed(ref), lambda: f"printed form {str(real)!r}", key)
    # what the caller does with the noise objects later is no declaration
    from mqt.qudits.simulation.noise_tools import Noise
    for n, o in held.items():
        if n in ("S01", "S21", "SL"):
            o.add_noise(7, 8, Noise(0.9, 0.9))
        elif n in ("N", "M"):
            o.probability_depolarizing = 0.77
    require(read_model(real) == ref, lambda: "a later change of the caller's noise object changed the model", key)
    rec.state(tuple((g, m, str(o)) for g, ms in ref.items() for m, o in ms.items()))
    rec.trace()
    return want is not None


def many(rec):
    """A model for every gate name, mode by mode: no declaration displaces an earlier one."""
    from mqt.qudits.simulation.noise_tools import NoiseModel

    names = ["x", "z", "h", "s", "rxy", "rz", "rh", "virtrz", "cuone", "cutwo", "cumulti", "cx", "csum", "ls", "ms", "gell", "rdu", "noisex", "noisey"]
    for step in range(1, len(MODES) + 1):
        real, ref = NoiseModel(), {}
        held = {n: make(n) for n in OBJECTS}
        k = 0
        for mode in MODES[::step]:
            for g in names:
                name = list(OBJECTS)[k % len(OBJECTS)]
                k += 1
                getattr(real, ADD[mode])(held[name], [g])
                ref = declare(ref, (name, [g], mode))
                rec.step()
                require(read_model(real) == ref, lambda: f"after declaring {name} for {g} ({mode}) as number {k} the model holds {read_model(real)}", f"many {step}")
        require(str(real) == printed(ref), "printed form", f"many {step}")
        rec.state(("many", step))
        rec.trace()


def run_sub(start, ops, rec):
    from mqt.qudits.simulation.noise_tools import Noise, SubspaceNoise

    start = tuple(start) if start and not isinstance(start[0], (list, tuple)) else [tuple(x) for x in start]
    key = f"SubspaceNoise({start}) " + " ; ".join(str(o) for o in ops)
    pairs = [start] if isinstance(start, tuple) else (start or [(-2, -1)])
    ref = merge_sub({}, pairs, [(0.3, 0.4)] * len(pairs))
    try:
        real = SubspaceNoise(0.3, 0.4, start)
    except ValueError:
        real = None
    require((real is None) == (ref is None), lambda: f"construction is {'refused' if real is None else 'accepted'}", key)
    if ref is None:
        return
    for i, op in enumerate(ops):
        pairs = [(op[1], op[2])] if op[0] == "add" else [tuple(x) for x in op[1]]
        probs = [(0.01 * (i + 1), 0.1 * k) for k in range(len(pairs))]
        want = merge_sub(ref, pairs, probs)
        try:
            if op[0] == "add":
                real.add_noise(op[1], op[2], Noise(*probs[0]))
            else:
                real.add_noises({p: Noise(*pr) for p, pr in zip(pairs, probs)})
            ok = True
        except ValueError:
            ok = False
        rec.step()
        require(ok == (want is not None), lambda: f"operation {i + 1} is {'accepted' if ok else 'refused'}, the rules say the opposite", key)
        ref = ref if want is None else want
        require(read(real) == ("sub", ref), lambda: f"after operation {i + 1}: {read(real)}, declared {ref}", key)
    rec.state(tuple(ref.items()))
    rec.trace()


def check(case, rec):
    if case["kind"] == "many":
        return many(rec)
    left = case["depth"] - len(case["pre"])
    if case["kind"] == "sub":
        for rest in itertools.product(SUB_OPS, repeat=left):
            run_sub(case["start"], [*case["pre"], *rest], rec)
        return
    for rest in itertools.product(full_menu(case["menu"]), repeat=left):
        run_model([*case["pre"], *rest], rec)
