"""C27: variational compilation realises the target within the tolerance, with the fewest layers found, or refuses - whatever the optimiser does."""
from __future__ import annotations

import contextlib
import itertools
import threading

import numpy as np

from mc import gates as G, ref
from mc.core import require

PROPERTY = "C27"
RULE = ("the real variational compiler under every behaviour of its two environments: the numerical optimiser (per layer count: finds a "
        "solution, fails, runs out of time, crashes) and the timer (fires in time, fires late into a later search); every sequence of two compilations")
BOUNDS = {
    "quick": "3 ansatz kinds, line and dimension layouts up to 3 qudits of dims 2-3, layer limits 0..3, all 4^(limit+1) optimiser scripts x late timer, all pairs of 10 compilations",
    "thorough": "the same with layer limit 4, every layout with every script, triples of compilations",
}
ASSUMPTIONS = ["a custom primitive acts on the lines of the target gate", "which exception reports a failed compilation is not judged",
               "the optimiser may stop only by returning, by an exception of the objective, or by one of its own"]
CASE_LIMIT_S = 300
BATCH = 4
TOL = 1e-3

LAYOUTS = [
    # dims, lines of the target
    ([2, 2], [0, 1]), ([2, 3], [0, 1]), ([3, 2], [0, 1]), ([3, 3], [0, 1]), ([2, 2, 3], [1, 2]), ([3, 2, 2], [0, 2]), ([2, 3, 2], [1, 0]), ([3, 2], [1, 0]),
]
ACTS = ["hit", "miss", "timeout", "crash"]


def cases(tier, seed):
    deep = tier == "thorough"
    for li in range(len(LAYOUTS)):
        for kind in ("CU", "MS", "LS"):
            for n in range(4 if deep else 3):
                if n == 2 and not deep and (kind != "CU" or li not in (1, 4)):
                    continue
                yield {"kind": "scripts", "layout": li, "ansatz": kind, "layers": n, "late": False}
    for late in (False, True):
        yield {"kind": "scripts", "layout": 0, "ansatz": "CU", "layers": 3, "late": late}
        for act in ACTS if deep else ():
            yield {"kind": "scripts", "layout": 0, "ansatz": "CU", "layers": 4, "late": late, "first": act}
    for li in range(len(LAYOUTS)):
        for kind in ("CU", "MS", "LS"):
            yield {"kind": "single", "layout": li, "ansatz": kind}
    first = list(jobs())
    for j in range(len(first)):
        yield {"kind": "pairs", "first": j, "depth": 3 if deep else 2}
    for n in (-1, -2):
        yield {"kind": "refused", "layers": n, "ansatz": "CU"}
    for a in ("XX", "", "ms", None):
        yield {"kind": "refused", "layers": 1, "ansatz": a}
    yield {"kind": "refused", "layers": 1, "ansatz": "CU", "noprimitive": True}
    for act in ("given", "worse"):
        for li in range(len(LAYOUTS)):
            for m in ("rand", "csum", "ls"):
                yield {"kind": "sparse", "layout": li, "matrix": m, "act": act}


class Script(Exception):
    """What the scripted optimiser raises when it is told to crash."""


class Env:
    """The scripted optimiser and the controlled timers."""

    def __init__(self, script, solutions, late=False):
        self.script = script            # act per number of primitives
        self.solutions = solutions      # parameters per number of primitives
        self.late = late
        self.timers = []
        self.probes = []
        self.step = None                # parameters per layer

    def timer(self):
        env = self

        class Timer:
            def __init__(self, interval, function, args=None, kwargs=None):
                self.interval, self.function, self.args, self.kwargs = interval, function, args or [], kwargs or {}
                self.state, self.daemon, self.at = "new", False, len(env.probes)
                env.timers.append(self)

            def start(self):
                self.state = "running"

            def cancel(self):
                if self.state != "fired":
                    self.state = "cancelled"

            def is_alive(self):
                return self.state == "running"

            def join(self, timeout=None):
                pass

            def fire(self):
                if self.state == "running":
                    self.state = "fired"
                    self.function(*self.args, **self.kwargs)

        return Timer

    def optimise(self, func, bounds, *args, **kwargs):
        lo = np.array([b[0] for b in bounds], dtype=float)
        hi = np.array([b[1] for b in bounds], dtype=float)
        require(len(bounds) % self.step == 0 and np.all(lo <= hi), "ill-formed bounds")
        prims = len(bounds) // self.step - 1
        act = self.script.get(prims, "miss")
        self.probes.append((prims, act))
        if self.late:
            for t in self.timers:
                if t.at < len(self.probes) - 1:
                    t.fire()
        bad = (lo + hi) / 2
        val = func(bad)
        if act == "crash":
            raise Script("the optimiser failed")
        if act == "timeout":
            # the clock may start only after the search began: the timer is fired once it is running
            for _ in range(2000):
                if any(t.is_alive() for t in self.timers):
                    break
                threading.Event().wait(0.001)
            for t in self.timers:
                t.fire()
            val = func(bad)
        if act == "hit" and prims in self.solutions:
            good = np.array(self.solutions[prims], dtype=float)
            require(np.all(good >= lo - 1e-12) and np.all(good <= hi + 1e-12), lambda: f"bounds exclude a solution: {good} not in {bounds}")
            val2 = func(good)
            from scipy.optimize import OptimizeResult

            return OptimizeResult(x=good, fun=val2)
        from scipy.optimize import OptimizeResult

        return OptimizeResult(x=bad, fun=val)


@contextlib.contextmanager
def stage(env):
    import queue

    import mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz.ansatz_solve_n_search as S
    import mqt.qudits.compiler.twodit.variational_twodit_compilation.opt.optimizer as O

    class Queue(queue.Queue):
        def get(self, block=True, timeout=None):
            # the searching thread has ended when its answer is fetched: waiting for an answer that is not there never ends
            if block and timeout is None and self.empty() and threading.active_count() <= alive:
                raise Hang("waits for ever for the result of a search that has ended without one")
            return super().get(block, timeout)

    alive = threading.active_count()
    saved = [(threading, "Timer", threading.Timer), (queue, "Queue", queue.Queue), (threading, "excepthook", threading.excepthook)]
    saved += [(m, n, getattr(m, n)) for m in (O, S) for n in ("dual_annealing",) if hasattr(m, n)]
    import scipy.optimize

    saved.append((scipy.optimize, "dual_annealing", scipy.optimize.dual_annealing))
    for m, n in ((S, "Timer"), (S, "Queue")):
        if hasattr(m, n):
            saved.append((m, n, getattr(m, n)))
    try:
        for m, n, _v in saved:
            setattr(m, n, {"Timer": env.timer(), "Queue": Queue, "dual_annealing": env.optimise, "excepthook": lambda _a: None}[n])
        yield
    finally:
        for m, n, v in saved:
            setattr(m, n, v)


class Hang(BaseException):
    pass


def check(case, rec):
    globals()["check_" + case["kind"]](case, rec)


def place(layout, ansatz, seed=0, prims=None):
    """Circuit, sorted lines, dims, primitive gate and its matrix for a layout."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    dims, lines = LAYOUTS[layout]
    c = QuantumCircuit(len(dims), list(dims), 0)
    c.h(0)
    lo, hi = sorted(lines)
    d = [dims[lo], dims[hi]]
    prim = None
    if ansatz == "CU":
        prim = c.cu_two([lo, hi], G.unitary("ent", d[0] * d[1]) if seed != "id" else np.eye(d[0] * d[1], dtype=complex))
        c.instructions.pop()
        c.number_gates -= 1
    return c, list(lines), [lo, hi], d, prim


def params(seed, n, d):
    """Fixed generic parameters inside the bounds for n primitives."""
    rng = np.random.RandomState(seed)
    out = []
    for _ in range(n + 1):
        for k in d:
            for i in range(k * k - 1):
                a, b = divmod(i, k)
                top = 2 * np.pi if a == b else (np.pi if a > b else np.pi / 2)
                out.append(0.05 + rng.rand() * (top - 0.1))
    return out


def ansatz_matrix(kind, p, d, prim):
    """The operator the search associates with parameters (evaluated by the code, judged only through the returned circuit)."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz import cu_ansatz, ls_ansatz, ms_ansatz
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz.ansatz_gen_utils import Primitive

    old = Primitive.CUSTOM_PRIMITIVE
    Primitive.set_class_variables(prim)
    try:
        return np.array({"CU": cu_ansatz, "MS": ms_ansatz, "LS": ls_ansatz}[kind](p, d))
    finally:
        Primitive.set_class_variables(old)


def operator(circuit):
    n = list(circuit.dimensions)
    u = np.eye(int(np.prod(n)), dtype=complex)
    for g in circuit.instructions:
        t = g.target_qudits if isinstance(g.target_qudits, list) else [g.target_qudits]
        m = g.to_matrix(identities=0)
        u = ref.embed(np.array(m), sorted(t), n) @ u
    return u


def close(a, b, tol):
    return 1 - abs(np.trace(a.conj().T @ b)) / a.shape[0] < tol


def target_of(c, pair, m):
    g = c.cu_two(list(pair), m)
    c.instructions.pop()
    c.number_gates -= 1
    return g


def run_one(rec, what, c, pair, d, target, kind, layers, prim, env, full=None):
    """One compilation under a scripted environment; returns (#primitives of the circuit, None) or (None, exception)."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.layered_compilation import variational_compile

    env.step = d[0] ** 2 + d[1] ** 2 - 2
    before = [id(g) for g in c.instructions]
    tm = np.array(target.to_matrix(identities=0))
    res, err = None, None
    threads = set(threading.enumerate())
    with stage(env):
        try:
            res = variational_compile(target, TOL, kind, layers, prim)
        except Hang as e:
            require(False, f"{what}: {e}; optimiser: {env.probes}", what)
        except Exception as e:  # noqa: BLE001
            err = e
    rec.step(len(env.probes))
    rec.state((what, tuple(env.probes), res is not None))
    rec.trace()
    require([id(g) for g in c.instructions] == before, "the circuit of the target was changed", what)
    require(np.allclose(tm, target.to_matrix(identities=0)), "the target was changed", what)
    left = [t for t in threading.enumerate() if t not in threads and not t.daemon]
    require(not left and not [t for t in env.timers if t.is_alive() and not t.daemon], lambda: f"{what}: timers or threads still run after the compilation ended {env.probes}", what)
    if err is not None:
        return None, err
    want = ref.embed(tm, pair, list(c.dimensions)) if full is None else full
    got = operator(res)
    require(list(res.dimensions) == list(c.dimensions), "the register changed", what)
    require(close(got, want, TOL * 1.01), lambda: f"{what}: the compiled circuit misses the target: infidelity {1 - abs(np.trace(got.conj().T @ want)) / len(got):.3g}; optimiser {env.probes}", what)
    n = sum(1 for g in res.instructions if isinstance(g.target_qudits, list) and len(g.target_qudits) == 2)
    return n, None


def judge(what, env, n, err):
    """The outcome must follow from what the optimiser found."""
    hits = [p for p, a in env.probes if a == "hit" and p in env.solutions]
    crash = any(a == "crash" for _p, a in env.probes)
    if crash:
        require(err is not None or hits, f"{what}: a compilation without a result returned a circuit; optimiser {env.probes}", what)
        return
    if not hits:
        require(err is not None, f"{what}: no search succeeded, yet a circuit was returned; optimiser {env.probes}", what)
        return
    require(err is None, lambda: f"{what}: a search succeeded, yet the compilation failed with {err!r}; optimiser {env.probes}", what)
    require(n == min(hits), f"{what}: {n} primitives although {min(hits)} suffice; optimiser {env.probes}", what)


def check_scripts(case, rec):
    layers, kind = case["layers"], case["ansatz"]
    # every script: with the identity-like primitive a solution exists at every layer count; otherwise at one of them
    c, _lines, pair, d, prim = place(case["layout"], kind, "id" if kind == "CU" else 0)
    sizes = probe_sizes(case, c, pair, d, kind, prim)
    if kind == "CU":
        a, b = params(1, 0, d)[: d[0] ** 2 - 1], params(1, 0, d)[d[0] ** 2 - 1:]
        sols = {}
        for p in sizes[layers]:
            zero = [0.0] * (d[0] ** 2 + d[1] ** 2 - 2)
            sols[p] = list(a) + list(b) + zero * p
        m = ansatz_matrix("CU", sols[min(sols)], d, prim)
        variants = [(m, sols)]
    else:
        variants = []
        for p in sizes[layers]:
            x = params(5 + p, p, d)
            variants.append((ansatz_matrix(kind, x, d, prim), {p: x}))
    for m, sols in variants:
        t = target_of(c, pair, m)
        for script in itertools.product(ACTS, repeat=len(sizes[layers])):
            if case.get("first") and script[0] != case["first"]:
                continue
            acts = dict(zip(sizes[layers], script))
            if kind != "CU" and any(a == "hit" and p not in sols for p, a in acts.items()):
                continue
            env = Env(acts, sols, case["late"])
            what = f"{kind} {LAYOUTS[case['layout']]} layers {layers} late {case['late']} {script}"
            n, err = run_one(rec, what, c, pair, d, t, kind, layers, prim, env)
            judge(what, env, n, err)
            mono = [acts[p] == "hit" for p in sizes[layers]]
            if kind == "CU" and "crash" not in script and mono == sorted(mono) and any(mono):
                require(err is None and n == min(p for p, a in acts.items() if a == "hit"), lambda: f"{what}: {n} primitives, not the fewest that suffice {err!r}", what)


def probe_sizes(case, c, pair, d, kind, prim):
    """Primitive counts the search can try for each layer limit (by letting every search fail)."""
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz.ansatz_solve_n_search import run
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.opt import Optimizer

    out, seen = {}, []
    for n in range(case.get("layers", 1) + 1):
        env = Env({}, {})
        env.step = d[0] ** 2 + d[1] ** 2 - 2
        Optimizer.set_class_variables(np.eye(d[0] * d[1], dtype=complex), -1.0, d[0], d[1], 1)
        seen.append(len(Optimizer.return_bounds(n)) // env.step - 1)
        out[n] = list(seen)
    return out


def check_single(case, rec):
    """Solutions with generic parameters at every small layer count: the circuit must be the operator the search matched."""
    kind = case["ansatz"]
    c, lines, pair, d, prim = place(case["layout"], kind, 0)
    for p in (1, 2, 3):
        for seed in (1, 2, 3):
            x = params(seed, p, d)
            t = target_of(c, pair, ansatz_matrix(kind, x, d, prim))
            env = Env({p: "hit"}, {p: x})
            what = f"{kind} {LAYOUTS[case['layout']]} {p} primitives, parameters {seed}"
            n, err = run_one(rec, what, c, pair, d, t, kind, p - 1, prim, env)
            judge(what, env, n, err)
            if env.probes[0][0] == p:
                require(n == p, what + ": not compiled", what)
    # a gate written on its lines in the given order
    if sorted(lines) != lines and kind == "CU":
        g = c.cx(lines)
        c.instructions.pop()
        c.number_gates -= 1
        full = ref.embed(G.base_matrix(["cx", lines, G_CX, None, False], list(c.dimensions)), lines, list(c.dimensions))
        prim = target_of(c, pair, np.array(g.to_matrix(identities=0)))
        x = [0.0] * (2 * (d[0] ** 2 + d[1] ** 2 - 2))
        env = Env({1: "hit"}, {1: x})
        what = f"cx on {LAYOUTS[case['layout']]}"
        n, err = run_one(rec, what, c, pair, d, g, kind, 0, prim, env, full)
        judge(what, env, n, err)


G_CX = [0, 1, 1, 0.0]


def jobs():
    """(ansatz, layout, script for 1 and 2 primitives, late)"""
    for script in (["hit", "hit"], ["miss", "hit"], ["miss", "miss"], ["timeout", "hit"], ["timeout", "timeout"], ["crash", "crash"], ["miss", "timeout"]):
        yield ("CU", 0, script)
    yield ("MS", 1, ["hit", "miss"])
    yield ("LS", 2, ["miss", "hit"])
    yield ("CU", 4, ["miss", "hit"])


def check_pairs(case, rec):
    js = list(jobs())
    for rest in itertools.product(range(len(js)), repeat=case["depth"] - 1):
        hist, timers = [case["first"], *rest], []
        for late in (False, True):
            for k, j in enumerate(hist):
                kind, layout, script = js[j]
                c, _l, pair, d, prim = place(layout, kind, "id" if kind == "CU" else 0)
                if kind == "CU":
                    half = params(3 + k, 0, d)
                    sols = {p: half + [0.0] * (p * len(half)) for p in (1, 2)}
                    m = ansatz_matrix("CU", sols[1], d, prim)
                else:
                    p = 1 + script.index("hit")
                    sols = {p: params(3 + k, p, d)}
                    m = ansatz_matrix(kind, sols[p], d, prim)
                env = Env(dict(zip((1, 2), script)), sols)
                what = f"history {[js[i] for i in hist]} late {late}, compilation {k}"
                if late:
                    for x in timers:
                        x.fire()
                n, err = run_one(rec, what, c, pair, d, target_of(c, pair, m), kind, 1, prim, env)
                judge(what, env, n, err)
                timers += env.timers


def check_refused(case, rec):
    from mqt.qudits.compiler.twodit.variational_twodit_compilation.layered_compilation import variational_compile

    c, _l, pair, d, prim = place(0, "CU", "id")
    x = params(1, 1, d)
    t = target_of(c, pair, ansatz_matrix("CU", x, d, prim))
    env = Env({1: "hit", 2: "hit", 3: "hit"}, {1: x})
    env.step = d[0] ** 2 + d[1] ** 2 - 2
    what = str(case)
    bad = None
    with stage(env):
        try:
            variational_compile(t, TOL, case["ansatz"], case["layers"], None if case.get("noprimitive") else prim)
            bad = "an invalid request was answered"
        except Hang as e:
            bad = str(e)
        except Exception:  # noqa: BLE001
            pass
    rec.step()
    rec.state(what)
    require(bad is None, bad, what)
    # and nothing of it remains
    env = Env({1: "hit"}, {1: x})
    n, err = run_one(rec, what, c, pair, d, t, "CU", 0, prim, env)
    judge(what, env, n, err)


def check_sparse(case, rec):
    """sparsify returns the rotated operator whose sparsity the minimiser was asked to judge."""
    import mqt.qudits.compiler.twodit.variational_twodit_compilation.sparsifier as S
    from scipy.optimize import OptimizeResult

    c, _l, pair, d, _p = place(case["layout"], "MS")
    dims = list(c.dimensions)
    n = d[0] * d[1]
    if case["matrix"] == "csum":
        if d[0] != d[1]:
            return
        m = ref.csum(*d)
    elif case["matrix"] == "ls":
        m = np.diag([np.exp(1j * (i // d[1] == i % d[1])) for i in range(n)])
    else:
        m = G.unitary("sparse", n)
    g = target_of(c, pair, m)
    judged = {}

    def fake(fun, x0, args=(), bounds=None, **_kw):
        x = np.array(x0, dtype=float)
        if bounds is not None:
            require(len(bounds) == len(x) and all(b[0] - 1e-12 <= v <= b[1] + 1e-12 for b, v in zip(bounds, x)), "start outside the bounds")
        if case["act"] == "worse":
            x = x * 0.5
        judged["value"] = fun(x, *args)
        return OptimizeResult(x=x, fun=judged["value"])

    saved = S.minimize
    S.minimize = fake
    try:
        res = S.sparsify(g)
    finally:
        S.minimize = saved
    u = operator(res)
    what = str(case)
    # the operator must be (local) m (local) on the right lines, with the value that was judged
    red = reduce_to(u, pair, dims)
    require(red is not None, "the circuit acts outside the lines of the gate", what)
    ghost = np.abs(red.real) + np.abs(red.imag)
    value = S.compute_f(ghost) * S.density(ghost)
    require(abs(value - judged["value"]) < 1e-6, f"{what}: the circuit has sparsity {value}, the minimiser was told {judged['value']}", what)
    # equivalence under local rotations: operator-Schmidt values are invariant
    require(np.allclose(schmidt(red, d), schmidt(m, d), atol=1e-8), "the circuit is not the gate up to local rotations", what)
    rec.step(2)
    rec.trace()
    rec.state((what, round(value, 9)))


def schmidt(m, d):
    a = np.array(m).reshape(d[0], d[1], d[0], d[1]).transpose(0, 2, 1, 3).reshape(d[0] ** 2, d[1] ** 2)
    return np.linalg.svd(a, compute_uv=False)


def reduce_to(u, pair, dims):
    """u = red (x) identity on the other lines, or None."""
    d = [dims[i] for i in pair]
    n = d[0] * d[1]
    red = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            a, b = ref.digits(i, d), ref.digits(j, d)
            da, db = [0] * len(dims), [0] * len(dims)
            for k, line in enumerate(pair):
                da[line], db[line] = a[k], b[k]
            red[i, j] = u[ref.index(da, dims), ref.index(db, dims)]
    return red if np.allclose(ref.embed(red, pair, dims), u, atol=1e-8) else None
