"""C31: noisy shots of the decision-diagram simulator draw exactly the declared errors."""
from __future__ import annotations

import contextlib
import ctypes
import importlib.util
import itertools
import os
import sys

import numpy as np

from mc import cpp, gates as G, ref
from mc.core import REPO, VERIF, require

PROPERTY = "C31"
RULE = ("all outcomes of the random numbers of a noisy shot of the real C++ simulator (its random engine answers from a script; every script is "
        "run), for every gate, mode, probability pair and register of a menu; the average over all outcomes against the declared channel")
BOUNDS = {
    "quick": "registers [2] [3] [4] [2,3] [3,2] [2,2,3] [3,2,2], 10 gates with all levels and both target orders, 5 modes, 6 probability pairs (multiples of 1/4), pairs of modes, pairs of noisy gates",
    "thorough": "the same with registers up to dims 7 and [2,3,2,2], all probability pairs for every gate, triples of modes",
}
ASSUMPTIONS = ["the engine's numbers are discretised to two or four equally likely ones, exact for the probabilities used (multiples of 1/2 or 1/4)",
               "within one mode the shift error precedes the phase error; modes are applied in alphabetical order",
               "noise on the target of a gate without controls, or on the target or control of a gate with attached controls, may be refused"]
CASE_LIMIT_S = 300
BATCH = 2
TAG = {"r": "rxy"}
_mod = None
_lib = None


def setup(tier, scratch):
    global _mod, _lib
    so = cpp.compile_so(scratch, [f"{REPO}/src/python/bindings.cpp"], os.path.join(scratch, "_qudits.so"),
                        ["-include", os.path.join(VERIF, "mc", "cxx", "mc_random.hpp")])
    import mqt.qudits  # noqa: F401

    spec = importlib.util.spec_from_file_location("mqt.qudits._qudits", so)
    _mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(_mod)
    for name in [m for m in sys.modules if m.startswith(("mqt.qudits._qudits", "mqt.qudits.simulation"))]:
        del sys.modules[name]
    sys.modules["mqt.qudits._qudits"] = _mod
    sys.modules["mqt.qudits._qudits.misim"] = _mod.misim
    _lib = ctypes.CDLL(so)
    _lib.mc_seed.restype = ctypes.c_uint64


PROBS = [(0.25, 0.5), (0.5, 0.0), (0.0, 0.75), (1.0, 0.25), (0.0, 0.0), (1.0, 1.0)]
MODES = ["local", "all", "nonlocal", "target", "control"]
REGS = [[2], [3], [4], [2, 3], [3, 2], [2, 2, 3], [3, 2, 2]]
MORE = [[5], [6], [7], [4, 3], [2, 5], [2, 3, 2, 2]]


def menu(dims, rich=True):
    n = len(dims)
    out = []
    for q in range(n):
        d = dims[q]
        pairs = list(itertools.permutations(range(d), 2)) if d < 4 else [(0, 1), (d - 1, 0), (1, d - 1), (2, 1)]
        for a, b in pairs if rich else pairs[-1:]:
            out += [["r", [q], [a, b, 0.7, 0.4], None, False], ["rz", [q], [a, b, 0.9], None, a > b]]
        for a in range(d) if rich else (d - 1,):
            out.append(["virtrz", [q], [a, 1.1], None, False])
        out += [["x", [q], None, None, True], ["z", [q], None, None, False], ["h", [q], None, None, False], ["rh", [q], [0, d - 1], None, False]]
    for a, b in itertools.permutations(range(n), 2):
        out += [["cx", [a, b], [0, dims[b] - 1, 1, 0.6], None, False]]
        if dims[a] == dims[b]:
            out.append(["csum", [a, b], None, None, True])
    for a, b in itertools.permutations(range(n), 2):
        out.append(["x", [a], None, [[b, 0]], False])
        out.append(["r", [a], [0, dims[a] - 1, 0.5, 0.2], [[b, dims[b] - 1]], False])
    return out


def cases(tier, seed):
    deep = tier == "thorough"
    for dims in REGS + (MORE if deep else []):
        for k, g in enumerate(menu(dims)):
            for m, mode in enumerate(MODES):
                for j, p in enumerate(PROBS):
                    if allowed(g, mode) != "yes" and j not in (0, 2 + k % 3):
                        continue
                    if deep or j == 0 or (k + m + j) % 4 == 0 or (len(dims) == 1 and dims[0] < 4):
                        yield {"dims": dims, "gates": [g], "noise": [[g[0], mode, *p]]}
        small = menu(dims, False)
        for g in small:
            for ma, mb in itertools.combinations(MODES, 2):
                if allowed(g, ma) == "yes" and allowed(g, mb) == "yes":
                    yield {"dims": dims, "gates": [g], "noise": [[g[0], ma, 0.5, 0.5], [g[0], mb, 0.5, 0.5]], "grid": 1}
                    if deep and ma == "all" and mb == "local" and g[0] in {"cx", "csum"}:
                        yield {"dims": dims, "gates": [g], "noise": [[g[0], ma, 0.25, 0.0], [g[0], mb, 0.5, 0.0], [g[0], "target", 0.0, 0.75]]}
        for a, b in itertools.product(small[:: 1 if deep else 3], repeat=2):
            if a[0] != b[0] or a[1] == b[1]:
                noise = [[a[0], "local", 0.5, 0.5]] + ([[b[0], "all", 0.5, 1.0]] if b[0] != a[0] else [])
                yield {"dims": dims, "gates": [a, b, a] if len(dims) == 1 or b[0] == a[0] else [a, b], "noise": noise, "grid": 1}
        yield {"dims": dims, "gates": small[:4], "noise": [["s", "local", 0.5, 0.5]]}
    for dims in ([3], [2, 3]):
        yield {"dims": dims, "gates": [["x", [0], None, None, False]] * 3, "noise": [["x", "local", 0.5, 0.5]], "seeds": True}
        yield {"dims": dims, "gates": [["x", [0], None, None, False]], "noise": [["x", "local", 0.5, 0.5]], "physical": True}


def prefix(case):
    """Gates that give every line a generic state, chosen among those the case declares no noise for."""
    noisy = {x[0] for x in case["noise"]}
    out = []
    for q, d in enumerate(case["dims"]):
        for a in range(d - 1):
            if "r" not in noisy:
                out.append(["r", [q], [a, a + 1, 1.1 + 0.2 * q, 0.5 - 0.3 * a], None, False])
                continue
            mix = ["h", [q], None, None, False] if "rh" in noisy else ["rh", [q], [a, a + 1], None, False]
            turn = ["rz", [q], [a, a + 1, 0.8 + q], None, False] if "virtrz" in noisy else ["virtrz", [q], [a, 0.8 + q], None, False]
            out += [mix, turn, mix]
    return out


def allowed(g, mode):
    """yes, no, or either: whether noise of the mode applies to the gate."""
    two = len(g[1]) == 2
    if g[3]:
        return "either" if mode in {"control", "target"} else "yes"
    if mode in {"local", "all"}:
        return "yes"
    if mode == "target":
        return "yes" if two else "either"
    return "yes" if two else "no"


def lines(g, mode, n):
    ctl = [c for c, _l in g[3] or []]
    if mode == "all":
        return list(range(n))
    if mode in {"local", "nonlocal"}:
        return g[1] + ctl
    if mode == "target":
        return [g[1][1]] if len(g[1]) == 2 else list(g[1])
    return [g[1][0]] if len(g[1]) == 2 else ctl


def errors(g, d):
    """The shift and the phase error a gate causes on a line of d levels, or None when its levels do not exist there."""
    if g[0] in {"r", "rz", "virtrz"}:
        own = g[2]
        if g[0] == "virtrz":
            a, b = (own[0], own[0] + 1) if own[0] != d - 1 else (d - 2, d - 1)
        else:
            a, b = sorted(own[:2])
        if b >= d:
            return None
        return ref.r(d, a, b, np.pi, np.pi / 2), ref.rz(d, a, b, np.pi)
    return ref.x(d), ref.z(d)


def declared(case):
    """The density matrix the declared noise defines (None: to be refused), the probability that nothing inapplicable
    happens, and whether refusing is fine anyway."""
    dims = case["dims"]
    n = len(dims)
    psi = np.eye(int(np.prod(dims)), dtype=complex)[0]
    for g in prefix(case):
        psi = G.ref_full(g, dims) @ psi
    rho = np.outer(psi, psi.conj())
    either, free = False, 1.0
    for g in case["gates"]:
        u = G.ref_full(g[:3] + [None, g[4]], dims)  # attached controls are not applied: known finding of C04
        rho = u @ rho @ u.conj().T
        for _tag, mode, px, pz in sorted((x for x in case["noise"] if x[0] == g[0]), key=lambda x: x[1]):
            how = allowed(g, mode)
            if how == "no":
                return None, 0.0, True
            either = either or how == "either"
            hit = lines(g, mode, n)
            errs = [errors(g, dims[q]) for q in hit]
            if any(e is None for e in errs):
                free *= (1 - px) * (1 - pz)
                continue
            for k, p in ((0, px), (1, pz)):
                e = np.eye(len(rho), dtype=complex)
                for q, pair in zip(hit, errs):
                    e = ref.embed(pair[k], [q], dims) @ e
                rho = (1 - p) * rho + p * (e @ rho @ e.conj().T)
    return (rho if free == 1.0 else None), free, either


def model(case):
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, SubspaceNoise

    add = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
           "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control"}
    m = NoiseModel()
    for tag, mode, px, pz in case["noise"]:
        noise = SubspaceNoise(px, pz, (0, 1)) if case.get("physical") else Noise(px, pz)
        getattr(m, add[mode])(noise, [TAG.get(tag, tag)])
    return m


@contextlib.contextmanager
def quiet_stderr():
    """The simulator reports every refusal on the error stream."""
    keep, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(null)


def run(circuit, noise, script):
    arr = (ctypes.c_int * max(1, len(script)))(*script)
    _lib.mc_set_script(arr, len(script))
    v = np.array(_mod.misim.state_vector_simulation(circuit, noise))
    return v, _lib.mc_used()


def check(case, rec):
    with quiet_stderr():
        explore(case, rec)


def explore(case, rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    dims = case["dims"]
    n = len(dims)
    c = QuantumCircuit(n, list(dims), 0)
    for g in prefix(case):
        G.put(c, g)
    for g in case["gates"]:
        G.put(c, g)
    noise = model(case)
    what = str(case)
    if case.get("seeds"):
        return check_seeds(case, c, noise, rec)
    if case.get("physical"):
        for script in itertools.product(range(4), repeat=2):
            require(refused(c, noise, list(script)), "physical noise was accepted although it cannot be applied", what)
            rec.step()
        rec.trace()
        return None
    want, free, either = declared(case)
    log = case.get("grid", 2)
    _lib.mc_set_grid(log)
    top = 2**log
    ok = no = 0
    accepted = 0.0
    rho = np.zeros((int(np.prod(dims)),) * 2, dtype=complex)
    seen = 0.0
    script = []
    while True:
        try:
            v, used = run(c, noise, script)
            ok += 1
            accepted += float(top) ** -used
        except Exception:  # noqa: BLE001 a refusal
            v, used = None, _lib.mc_used()
            no += 1
        full = script + [0] * (used - len(script))
        full = full[:used] if used else []
        weight = float(top) ** -used
        seen += weight
        if v is not None:
            v = v.reshape(list(reversed(dims))).transpose(list(reversed(range(n)))).reshape(-1)
            rho += weight * np.outer(v, v.conj())
        rec.step()
        require(ok + no <= 70000, "more random numbers than expected", what)
        while full and full[-1] == top - 1:
            full.pop()
        if not full:
            break
        full[-1] += 1
        script = full
    require(abs(seen - 1) < 1e-9, f"outcomes of total weight {seen}", what)
    rec.count("refused" if no else "sampled")
    rec.state((what, ok, no))
    rec.trace(ok)
    if want is None:
        require(accepted <= free + 1e-9, f"noise that cannot apply was accepted in {ok} of {ok + no} outcomes", "accepted: " + what)
        return None
    if no:
        require(either and ok == 0, f"refused in {no} of {ok + no} outcomes", "refused: " + what)
        return None
    require(np.allclose(rho, want, atol=1e-7), f"the average over all outcomes is {np.max(abs(rho - want)):.3g} away from the declared channel", what)
    return None


def refused(c, noise, script):
    try:
        run(c, noise, script)
    except Exception:  # noqa: BLE001
        return True
    return False


def check_seeds(case, c, noise, rec):
    """Every shot starts its random numbers from its own seed, also within one tick of the clock."""
    _lib.mc_forget_seeds()
    shots = 300
    for _ in range(shots):
        run(c, noise, [])
    seeds = [_lib.mc_seed(i) for i in range(_lib.mc_seed_count())]
    require(len(seeds) >= shots, f"{len(seeds)} seeds for {shots} shots", str(case))
    require(len(set(seeds)) == len(seeds), f"{len(seeds) - len(set(seeds))} of {len(seeds)} shots share their seed", str(case))
    rec.step(shots)
    rec.trace()
    rec.state(len(seeds))
