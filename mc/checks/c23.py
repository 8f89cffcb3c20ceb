"""C23: the shots of a noisy run are independent samples of the measured distribution."""
from __future__ import annotations

import hashlib
import itertools
import math
import os
import sys
import pickle
import time as _time

import numpy as np

from mc import gates as G
from mc.chance import Enumerator, Generator, Unsupported, controlled
from mc.checks import c22
from mc.core import require

PROPERTY = "C23"
RULE = ("every assignment of the chunks of shots to worker processes x every clock pattern, run in forked workers under a controlled pool: no "
        "random number may serve two shots and there is one result per shot, in order; and all random outcomes of one shot enumerated: "
        "result distribution against the analytic one; and all combinations of saving options")
BOUNDS = {"quick": "1..3 workers, up to 6 shots (8 chunks), clock patterns of 4 ticks; 60 circuits for the distribution of one shot",
          "thorough": "1..4 workers, up to 8 shots, clock patterns of 6 ticks; three gates"}
ASSUMPTIONS = ["shots are handed to a pool of multiprocessing or concurrent.futures, random numbers come from numpy.random or random; otherwise a run is counted as uncontrolled and not judged"]
CASE_LIMIT_S = 300


def assignments(n, w):
    """All ways to hand n chunks to w interchangeable workers."""
    def go(i, used, acc):
        if i == n:
            yield list(acc)
            return
        for k in range(min(used + 1, w)):
            yield from go(i + 1, max(used, k + 1), [*acc, k])
    yield from go(0, 0, [])


def cases(tier, seed):
    deep = tier == "thorough"
    ticks = 6 if deep else 4
    for backend in ("tn", "mi"):
        for w, shots in ((1, 2), (1, 5), (2, 4), (2, 6), (2, 9), (3, 4)) + (((2, 12), (3, 5), (3, 6), (4, 5), (1, 9)) if deep else ()):
            chunks = math.ceil(shots / math.ceil(shots / (4 * w)))
            for a in assignments(chunks, w):
                yield {"kind": "schedule", "backend": backend, "workers": w, "shots": shots, "assign": a, "ticks": ticks if backend == "tn" else 2}
    one = ["x", [0], None, None, False]
    menus = {
        "[3]": [["h", [0], None, None, False], ["r", [0], [0, 2, 0.7, 0.3], None, False], one, ["rz", [0], [1, 2, 0.9], None, False]],
        "[2, 2]": [["h", [0], None, None, False], ["csum", [0, 1], None, None, False], ["x", [1], None, [[0, 1]], False], ["cx", [1, 0], [0, 1, 0, 0.3], None, False]],
        "[2, 3]": [["h", [1], None, None, False], ["csum", [1, 0], None, None, False], ["r", [1], [0, 2, 1.1, 0.2], None, True], ["x", [0], None, None, False]],
    }
    for th in (0.2, 0.05, 0.01):  # rare outcomes count too
        for dims, gates in (([3], [["r", [0], [0, 2, th, 0.3], None, False]]), ([2, 3], [["h", [1], None, None, False], ["r", [0], [0, 1, th, 0.3], None, False]])):
            yield {"kind": "shot", "dims": dims, "gates": gates, "rules": []}
            yield {"kind": "shot", "dims": dims, "gates": gates, "rules": [["r", "local", "01"]]}
    for n in (1, 2, 3):
        for gates in itertools.product(range(3), repeat=n):
            yield {"kind": "sure", "gates": list(gates)}
    for key, menu in menus.items():
        dims = eval(key)
        for n in range(1, 4 if deep else 3):
            for gates in itertools.product(menu, repeat=n):
                for rules in ([], [[gates[0][0], "local", "01"]], [[gates[-1][0], "all", "m"]]):
                    c = {"kind": "shot", "dims": dims, "gates": list(gates), "rules": rules}
                    if c22.plan(c) is not None and c22.outcomes(c) <= (5000 if deep else 800):
                        yield c
    yield from ({"kind": "file", "len": n, "first": a} for n in (1, 2, 3) for a in range(len(OUTCOMES)))
    yield from ({"kind": "file", "many": n} for n in (200, 40000, 70000))
    yield from ({"kind": "file", "states": d} for d in (1, 2, 3, 8, 30, 243))
    for backend, memory, full, path, name, shots in itertools.product(("tn", "mi"), (False, True), (False, True), (False, True), (False, True), (3, 50)):
        yield {"kind": "save", "backend": backend, "memory": memory, "full": full, "path": path, "name": name, "shots": shots}


def setup(tier, scratch):
    from mc import cpp

    cpp.use_current_bindings(scratch)
    import mqt.qudits.simulation.backends.stochastic_sim  # noqa: F401


def backend_of(kind):
    from mqt.qudits.simulation import MQTQuditProvider

    return MQTQuditProvider().get_backend("tnsim" if kind == "tn" else "misim")


# ---- tagged random numbers -----------------------------------------------------------------------

LOG: list = []


class Tagged:
    """A generator whose draws are named (stream, position); copies made by fork or pickle keep the name."""

    def __init__(self, stream):
        self.stream, self.pos = stream, 0

    def _pick(self, weights):
        LOG.append((self.stream, self.pos, len(weights)))
        h = int(hashlib.sha256(repr((self.stream, self.pos)).encode()).hexdigest(), 16)
        self.pos += 1
        live = [i for i, w in enumerate(weights) if w > 0]
        return live[h % len(live)]

    def __getattr__(self, name):
        if name.startswith("__") or name in ("stream", "pos"):
            raise AttributeError(name)
        return getattr(Generator(self._pick), name)


def tagged_rng(seed=None):
    if isinstance(seed, Tagged):
        return seed
    if seed is None:
        return Tagged("os:" + os.urandom(12).hex())
    if isinstance(seed, np.random.SeedSequence):
        return Tagged(f"ss:{seed.entropy}:{seed.spawn_key}")
    return Tagged(f"seed:{seed}")


class Clock:
    """Milliseconds that advance at the calls listed in the pattern only."""

    def __init__(self, pattern):
        self.pattern, self.calls, self.now = pattern, 0, 1_700_000_000_000

    def read(self):
        if self.calls < len(self.pattern) and self.pattern[self.calls]:
            self.now += 1
        self.calls += 1
        return self.now


class ForkPool:
    """A pool whose workers are real forked processes and whose schedule is given."""

    log: list = []
    used = 0

    def __init__(self, plan, pattern, processes):
        self.plan, self.n = plan, processes
        self.kids = [self._fork(pattern) for _ in range(processes)]

    def _fork(self, pattern):
        a, b = os.pipe(), os.pipe()
        pid = os.fork()
        if pid:
            os.close(a[0]), os.close(b[1])
            return pid, os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb")
        os.close(a[1]), os.close(b[0])
        fin, fout = os.fdopen(a[0], "rb"), os.fdopen(b[1], "wb")
        clock = Clock(pattern)
        _time.time = lambda: clock.read() / 1000
        _time.time_ns = lambda: clock.read() * 1_000_000
        LOG.clear()
        try:
            while True:
                task = pickle.load(fin)
                if task is None:
                    break
                fn, chunk = task
                try:
                    marks, res = [], []
                    for x in chunk:
                        at = len(LOG)
                        res.append(fn(x))
                        marks.append(LOG[at:])
                    out = ("ok", res, marks)
                except BaseException as e:  # noqa: BLE001
                    out = ("error", repr(e), None)
                pickle.dump(out, fout)
                fout.flush()
        finally:
            os._exit(0)

    def map(self, fn, items, chunksize=None):
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += 1 if extra else 0
        out, type(self).used = [], type(self).used + 1
        for k, lo in enumerate(range(0, len(items), max(1, chunksize))):
            _pid, w, r = self.kids[self.plan[k % len(self.plan)] % self.n]
            pickle.dump((fn, items[lo:lo + chunksize]), w)
            w.flush()
            st, res, marks = pickle.load(r)
            if st == "error" and res.startswith("Unsupported("):
                raise Unsupported(res)
            if st == "error":
                raise RuntimeError(res)
            out += res
            type(self).log += marks
        return out

    def imap(self, fn, items, chunksize=1):
        return iter(self.map(fn, items, chunksize))

    def apply(self, fn, args=(), kwds=None):
        return self.map(Call(fn, kwds), [args], 1)[0]

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        return Later(lambda: self.apply(fn, args, kwds), callback, error_callback)

    def map_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
        return Later(lambda: self.map(fn, items, chunksize), callback, error_callback)

    def starmap_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
        return Later(lambda: self.starmap(fn, items, chunksize), callback, error_callback)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Uncontrolled(name)

    def starmap(self, fn, items, chunksize=None):
        return self.map(Star(fn), items, chunksize)

    def imap_unordered(self, fn, items, chunksize=1):
        return reversed(self.map(fn, items, chunksize))

    def close(self):
        for pid, w, r in self.kids:
            pickle.dump(None, w)
            w.close()
            r.close()
            os.waitpid(pid, 0)
        self.kids = []

    terminate = close

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Star:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, args):
        return self.fn(*args)


class Call(Star):
    def __init__(self, fn, kwds):
        self.fn, self.kwds = fn, kwds or {}

    def __call__(self, args):
        return self.fn(*args, **self.kwds)


class Later:
    """The result of work given to the pool; done at once."""

    def __init__(self, work, callback, error_callback):
        self.error = None
        try:
            self.value = work()
            if callback:
                callback(self.value)
        except Uncontrolled:
            raise
        except Exception as e:  # noqa: BLE001
            self.error = e
            if error_callback:
                error_callback(e)

    def get(self, timeout=None):  # noqa: ARG002
        if self.error:
            raise self.error
        return self.value

    result = get

    def wait(self, timeout=None):
        pass

    def done(self):
        return True

    def exception(self, timeout=None):  # noqa: ARG002
        return self.error

    def ready(self):
        return True

    def successful(self):
        return self.error is None


class Executor:
    """The interface of concurrent.futures over a given pool."""

    def __init__(self, pool):
        self.pool = pool

    def submit(self, fn, /, *args, **kwds):
        return self.pool.apply_async(fn, args, kwds)

    def map(self, fn, *its, timeout=None, chunksize=1):  # noqa: ARG002
        return iter(self.pool.starmap(fn, list(zip(*its)), chunksize))

    def shutdown(self, wait=True, *, cancel_futures=False):  # noqa: ARG002
        self.pool.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.pool.close()


class Uncontrolled(RuntimeError):
    """The pool is used in a way that this machinery does not steer."""


class InlinePool(ForkPool):
    """Runs everything in this process, in order (for enumerating the outcomes of one shot)."""

    def __init__(self, processes=None):
        self.n = processes or 1

    def map(self, fn, items, chunksize=None):  # noqa: ARG002
        type(self).used += 1
        return [fn(x) for x in items]

    def close(self):
        pass

    terminate = close


class patched:
    def __init__(self, pool, cpus, rng):
        self.pool, self.cpus, self.rng = pool, cpus, rng

    def __enter__(self):
        import concurrent.futures.process
        import multiprocessing as mp
        import multiprocessing.pool
        from multiprocessing.context import BaseContext

        def pool(processes=None, *_a, **_k):
            return self.pool(processes or self.cpus)

        def executor(max_workers=None, *_a, **_k):
            return Executor(self.pool(max_workers or self.cpus))

        new = [(mp, "Pool", pool), (mp.pool, "Pool", pool), (mp, "cpu_count", lambda: self.cpus), (os, "cpu_count", lambda: self.cpus),
               (concurrent.futures, "ProcessPoolExecutor", executor), (concurrent.futures.process, "ProcessPoolExecutor", executor),
               (np.random, "default_rng", self.rng)]
        for module in [m for n, m in list(sys.modules.items()) if n.startswith("mqt.qudits.simulation")]:
            for m, n, v in new[:7]:  # names imported by the module itself
                new += [(module, k, v) for k, old in vars(module).items() if callable(old) and old == getattr(m, n)]
        new.append((BaseContext, "Pool", lambda _self, *a, **k: pool(*a, **k)))
        self.keep = [(m, n, getattr(m, n)) for m, n, _ in new]
        for m, n, v in new:
            setattr(m, n, v)

    def __exit__(self, *a):
        for m, n, v in reversed(self.keep):
            setattr(m, n, v)


def noise_model(rules, case=None):
    from mqt.qudits.simulation.noise_tools import NoiseModel

    model = NoiseModel()
    for tag, mode, name in rules:
        getattr(model, c22.ADD[mode])(c22.noise_object(name), [c22.tag_of(case, tag) if case else tag])
    return model


def prepare(backend, model, shots, **kw):
    be = backend_of(backend)
    be.noise_model, be.shots = model, shots
    be.memory, be.full_state_memory = kw.get("memory", False), kw.get("full", False)
    be.file_path, be.file_name = kw.get("path"), kw.get("name")
    return be


def check(case, rec):
    import io
    from contextlib import redirect_stdout

    with redirect_stdout(io.StringIO()):
        try:
            globals()["check_" + case["kind"]](case, rec)
        except (Uncontrolled, Unsupported):
            rec.count("uncontrolled")


def check_schedule(case, rec):
    from mqt.qudits.simulation.backends.stochastic_sim import stochastic_simulation

    circ = G.build([3], [["h", [0], None, None, False], ["x", [0], None, None, False]])
    key = f"{case['backend']} workers={case['workers']} shots={case['shots']} chunks to workers {case['assign']}"
    for pattern in itertools.product((0, 1), repeat=case["ticks"]):
        model = noise_model([["x", "local", "01"], ["h", "local", "m"]] if case["backend"] == "tn" else [["x", "local", "m"]])
        be = prepare(case["backend"], model, case["shots"])
        ForkPool.log, ForkPool.used = [], 0
        with patched(lambda n: ForkPool(case["assign"], pattern, n), case["workers"], tagged_rng):
            res = stochastic_simulation(be, circ)
        rec.step()
        k = f"{key} clock {list(pattern)}"
        require(len(res) == case["shots"], lambda: f"{len(res)} results", k)
        require(all(0 <= int(r) < 3 for r in res), lambda: f"results {res}", k)
        if not ForkPool.used or not any(ForkPool.log):
            rec.count("uncontrolled")
            continue
        seen = {}
        for shot, draws in enumerate(ForkPool.log):
            for d in draws:
                other = seen.setdefault(d[:2], shot)
                require(other == shot, lambda: f"shots {other} and {shot} use the same random number (stream {d[0]}, draw {d[1]}): they are copies, not independent samples", key)
        rec.count("draws", len(seen))
        rec.state((k, len(seen)))
    rec.trace()


def check_shot(case, rec):
    from mqt.qudits.simulation.backends.stochastic_sim import stochastic_simulation

    dims = case["dims"]
    n = int(np.prod(dims))
    key = f"{dims} {case['gates']} {case['rules']}"
    circ = G.build(dims, case["gates"])
    model = noise_model(case["rules"], case)
    rho = np.zeros((n, n), dtype=complex)
    rho[0, 0] = 1
    want = np.diag((c22.channel(case) @ rho.ravel()).reshape(n, n)).real
    be = prepare("tn", model, 1)
    enum, got, runs = Enumerator(), np.zeros(n), 0
    InlinePool.used = 0
    with patched(InlinePool, 1, enum.generator), controlled(enum.pick, enum.generator):
        for w, res in enum.runs(lambda: stochastic_simulation(be, circ)):
            require(len(res) == 1 and 0 <= int(res[0]) < n, lambda: f"results {res}", key)
            got[int(res[0])] += w
            runs += 1
            rec.step()
            if not InlinePool.used:
                rec.count("uncontrolled")
                return
    if not enum.draws and want.max() < 1 - 1e-6:  # chance from a source that is not controlled?
        with patched(InlinePool, 1, enum.generator):
            seen = {int(stochastic_simulation(be, circ)[0]) for _ in range(60)}
        if len(seen) > 1:
            rec.count("uncontrolled")
            return
    require(np.abs(got - want).max() < 1e-6, lambda: f"results follow {np.round(got, 4).tolist()}, expected {np.round(want, 4).tolist()}", key)
    rec.count("outcomes", runs)
    rec.state(key)
    rec.trace()


SURE = ["x", "h", "s"]


def check_sure(case, rec):
    """A model whose noise is certain: full dephasing of a qubit is the gate z, so that the outcome of the shots is known."""
    from mqt.qudits.simulation.backends.stochastic_sim import stochastic_simulation
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel

    dims, gates = [2, 2], [SURE[i] for i in case["gates"]]
    for noisy in itertools.chain.from_iterable(itertools.combinations(sorted(set(gates)), k) for k in range(len(set(gates)) + 1)):
        for line in (0, 1):
            specs = [["h", [line], None, None, False]] + [[g, [line], None, None, False] for g in gates] + [["h", [line], None, None, False]]
            model = NoiseModel()
            for g in noisy:
                tag = G.build(dims, [[g, [line], None, None, False]]).instructions[0].qasm_tag
                model.add_quantum_error_locally(Noise(0.0, 1.0), [tag])
            real = []
            for s in specs:
                real += [s] + ([["z", [line], None, None, False]] if s[0] in noisy else [])
            p = np.abs(G.ref_circuit(real, dims)[:, 0]) ** 2
            key = f"{[s[0] for s in specs]} on line {line} full dephasing of {list(noisy)}"
            be = prepare("mi", model, 3)
            with patched(InlinePool, 1, tagged_rng):
                res = [int(r) for r in stochastic_simulation(be, G.build(dims, specs))]
            require(all(p[r] > 1e-9 for r in res), lambda: f"outcomes {res}, probabilities {np.round(p, 3).tolist()}", key)
            rec.step(3)
            rec.state(key)
            rec.trace()


OUTCOMES = (0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31)


def check_file(case, rec):
    """What is written to a file is what was given: all short lists of outcomes at the limits of integer types, long lists, states."""
    import h5py
    import tempfile

    from mqt.qudits.simulation.save_info import save_full_states, save_shots

    with tempfile.TemporaryDirectory(prefix="c23-") as box:
        if "states" in case:
            n = case["states"]
            rng = np.random.default_rng(n)
            for count in (1, 2, 7):
                for scale in (1.0, 1e-9, 1e6):
                    vs = [(rng.normal(size=(1, n)) + 1j * rng.normal(size=(1, n))) * scale for _ in range(count)]
                    save_full_states([v.copy() for v in vs], box, "f.h5")
                    with h5py.File(os.path.join(box, "f.h5")) as f:
                        back = f["vectors"]["vector_data"]
                    key = f"states of {n} entries"
                    require(len(back) == count and all(np.array_equal(a, b) for a, b in zip(back, vs)), "the saved states are not the given ones", key)
                    rec.step()
                    rec.trace()
            return
        if "many" in case:
            lists = [list(range(case["many"])), [(7 * i) % 11 for i in range(case["many"])]]
        else:
            lists = [[OUTCOMES[case["first"]], *rest] for rest in itertools.product(OUTCOMES, repeat=case["len"] - 1)]
        for shots in lists:
            key = f"outcomes {shots if len(shots) < 9 else len(shots)}"
            for given in (list(shots), np.array(shots)):
                save_shots(given, box, "f.h5")
                with h5py.File(os.path.join(box, "f.h5")) as f:
                    got, nr = [int(x) for x in f["shots"]["shot"]], [int(x) for x in f["shots"]["nr"]]
                require(got == shots and nr == list(range(len(shots))), lambda: f"saved {got[:9]} as {nr[:9]}", key)
                rec.step()
                rec.trace()
            rec.state(tuple(shots[:9]) + (len(shots),))


def check_save(case, rec):
    import h5py
    import shutil
    import tempfile

    from mqt.qudits.simulation.backends.stochastic_sim import stochastic_simulation

    key = " ".join(f"{k}={case[k]}" for k in ("backend", "memory", "full", "path", "name", "shots"))
    box = tempfile.mkdtemp(prefix="c23-")
    try:
        circ = G.build([2, 3], [["h", [1], None, None, False], ["x", [0], None, None, False]])
        model = noise_model([["x", "local", "01"]] if case["backend"] == "tn" else [["x", "local", "m"]])
        be = prepare(case["backend"], model, case["shots"], memory=case["memory"], full=case["full"],
                     path=box if case["path"] else None, name="r.h5" if case["name"] else None)
        cwd = os.getcwd()
        os.chdir(box)
        try:
            with patched(InlinePool, 1, tagged_rng):
                res = stochastic_simulation(be, circ)
        finally:
            os.chdir(cwd)
        files = sorted(os.listdir(box))
        wanted = case["path"] and case["name"] and (case["memory"] or case["full"])
        require(files == (["r.h5"] if wanted else []), lambda: f"files written: {files}", key)
        require(len(res) == case["shots"], lambda: f"{len(res)} results", key)
        if case["full"]:
            require(all(np.shape(v) == (1, 6) and abs(np.linalg.norm(v) - 1) < 1e-8 for v in res), "a result is not a state of the register", key)
        if wanted:
            with h5py.File(os.path.join(box, "r.h5")) as f:
                if case["full"]:
                    back = f["vectors"]["vector_data"]
                    require(len(back) == len(res) and all(np.allclose(a, b) for a, b in zip(back, res)), "the saved states are not the results in order", key)
                    require(len({bytes(x) for x in f["vectors"]["name"]}) == len(res), "saved states share a name", key)
                else:
                    require([int(x) for x in f["shots"]["shot"]] == [int(x) for x in res], "the saved shots are not the results in order", key)
                    require([int(x) for x in f["shots"]["nr"]] == list(range(len(res))), "saved shots are misnumbered", key)
        rec.step()
        rec.state(key)
        rec.trace()
    finally:
        shutil.rmtree(box)
