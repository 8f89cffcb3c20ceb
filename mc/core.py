"""Explorer core: case enumeration, sharding over processes, counters, verdicts, evidence, replay.

A check module in mc.checks defines

    PROPERTY = "C01"
    def cases(tier, seed):  yields JSON-able cases; the *whole* list is the bounded space
    def check(case, rec):   executes the case on the real code, raises Violation when the
                            property is broken, and records what it visited in `rec`
    RULE, BOUNDS:           text for the evidence file
    (optional) setup(tier, scratch): one-off work in the parent process before the workers fork

Every case is explored; nothing is sampled.  VERIF_SEED only permutes the exploration order.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")
CASE_LIMIT_S = 240


class Violation(Exception):
    """The property does not hold on the explored behaviour.

    `key` identifies the failing input/history; it is what a known-findings entry must name exactly.
    """

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Recorder:
    """Counts what was really visited during this run."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.findings = []

    def state(self, canon):
        self.states.add(hashlib.blake2b(repr(canon).encode(), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def finding(self, key, msg):
        """A violation that does not stop the case (several independent inputs share one case)."""
        self.findings.append((str(key), str(msg)))


_mod = None
_scratch = None


_cpu = time.process_time
_limit = {"s": 0.0, "from": 0.0, "seen": 0.0}


def _alarm(_s, _f):
    """The limit counts processor time; a case that is waiting (no processor time at all) ends at the limit too."""
    used = _cpu() - _limit["from"]
    if used >= _limit["s"] or used - _limit["seen"] < 1:
        raise CaseTimeout
    _limit["seen"] = used
    signal.alarm(60)


def _worker_init(scratch):
    global _scratch
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _scratch = tempfile.mkdtemp(dir=scratch)
    os.chdir(_scratch)


def run_case(mod, case):
    """Run one case; returns (recorder, list of (key, message))."""
    rec = Recorder()
    bad = []
    old = signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(mod, "CASE_LIMIT_S", CASE_LIMIT_S)
    _limit.update({"s": limit, "from": _cpu(), "seen": 0.0})
    signal.alarm(limit)
    try:
        mod.check(case, rec)
    except Violation as e:
        bad.append((e.key or default_key(case), str(e)))
    except CaseTimeout:
        bad.append((default_key(case), f"no result within {limit} s (does not terminate?)"))
    except Exception:  # noqa: BLE001  the code under test raised where the property needs a result
        bad.append((default_key(case), "unexpected exception: " + traceback.format_exc(limit=-3)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return rec, bad + list(rec.findings)


def default_key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=str)


def _do(batch):
    out = []
    for idx, case in batch:
        t = time.time()
        rec, bad = run_case(_mod, case)
        out.append((idx, rec.states, rec.transitions, rec.traces, rec.extra, rec.samples[:1], bad, time.time() - t))
    return out


def load_known(prop):
    """{key: description} of recorded, unrepaired findings of this property."""
    try:
        data = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {e["key"]: e["what"] for e in data.get("known", []) if e["property"] == prop}


def explore(prop, tier, seed, jobs=None, verbose=False, only=None, evidence=True):
    global _mod
    t0 = time.time()
    mod = _mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    scratch = tempfile.mkdtemp(prefix=f"mc-{prop}-", dir=os.environ.get("TMPDIR", "/tmp"))
    rc = 1
    try:
        rc = _explore(mod, prop, tier, seed, scratch, t0, jobs, verbose, only, evidence)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _explore(mod, prop, tier, seed, scratch, t0, jobs, verbose, only, evidence):
    known = load_known(prop)
    setup_bad = []
    if hasattr(mod, "setup"):
        try:
            mod.setup(tier, scratch)
        except Violation as e:
            setup_bad.append((e.key or "setup", str(e)))
    all_cases = list(mod.cases(tier, seed)) if not setup_bad else []
    if only:
        all_cases = [c for c in all_cases if only in default_key(c)]
    n = len(all_cases)
    order = list(enumerate(all_cases))
    random.Random(seed).shuffle(order)  # order only: every case is run
    total = Recorder()
    bad_all = []  # (idx, key, msg)
    samples = []
    slow = []
    done = 0
    jobs = jobs or getattr(mod, "JOBS", None) or int(os.environ.get("MC_JOBS", min(8, os.cpu_count() or 1)))
    bs = max(1, min(getattr(mod, "BATCH", 50), n // (jobs * 8) or 1))
    batches = [order[i:i + bs] for i in range(0, n, bs)]

    def absorb(results):
        nonlocal done
        for idx, states, trans, traces, extra, samp, bad, dt in results:
            done += 1
            total.states |= states
            total.transitions += trans
            total.traces += traces
            for k, v in extra.items():
                total.extra[k] = total.extra.get(k, 0) + v
            if len(samples) < 4:
                samples.append({"case": all_cases[idx], "observed": samp[0] if samp else ("violation" if bad else "ok")})
            bad_all.extend((idx, k, m) for k, m in bad)
            slow.append((dt, idx))

    stopped = False
    if jobs == 1 or n <= 1:
        _worker_init(scratch)
        for b in batches:
            absorb(_do(b))
            if _too_many(bad_all, known):
                stopped = True
                break
    else:
        for res in _parallel(batches, jobs, scratch):
            absorb(res)
            if _too_many(bad_all, known):
                stopped = True
                break
    bad_all = [(-1, k, m) for k, m in setup_bad] + bad_all

    new = sorted([b for b in bad_all if b[1] not in known], key=lambda b: b[0])
    seen_known = {}
    for _i, k, m in bad_all:
        if k in known:
            seen_known.setdefault(k, m)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[k]} [{k}]")
    stale = sorted(set(known) - set(seen_known))
    if stale and not stopped and not only:
        for k in stale:
            print(f"note: known finding no longer observed: {k}")

    replay = None
    if new:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        idx, key, msg = new[0]
        replay = os.path.join(rdir, f"{prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": tier, "key": key, "message": msg,
                       "case": all_cases[idx] if idx >= 0 else None,
                       "how": f"bin/check {prop} --replay {replay}"}, f, indent=1, default=str)
        for idx, key, msg in new[: int(os.environ.get("MC_SHOW", "4"))]:
            print(f"  violated on {key}\n    " + msg.strip().replace("\n", "\n    "))
    wall = time.time() - t0
    cov = {
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "samples": samples or [{"case": None, "observed": "none"}],
        "cases_enumerated": n,
        "cases_explored": done,
        "exhaustive": (not stopped) and done == n and not only,
        "rule": getattr(mod, "RULE", ""),
        "bounds": mod.BOUNDS[tier] if isinstance(getattr(mod, "BOUNDS", None), dict) else getattr(mod, "BOUNDS", ""),
        **{k: v for k, v in sorted(total.extra.items())},
    }
    if evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                       "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
                       "violations": len(new), "known_findings_seen": sorted(seen_known)}, f, indent=1, default=str)
    print(f"{prop} [{tier}] cases={done}/{n} states={len(total.states)} transitions={total.transitions} "
          f"traces={total.traces} {dict(sorted(total.extra.items()))} wall={wall:.1f}s known={len(seen_known)} new={len(new)}")
    if verbose and slow:
        slow.sort(reverse=True)
        for dt, i in slow[:3]:
            print(f"   slow {dt:.2f}s {default_key(all_cases[i])[:200]}")
    if new:
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    if not done and not setup_bad:
        print("nothing explored", file=sys.stderr)
        return 2
    return 0


def _too_many(bad, known):
    return sum(1 for b in bad if b[1] not in known) >= int(os.environ.get("MC_MAX_BAD", "25"))


def _parallel(batches, jobs, scratch):
    """Yield the results of all batches; a worker that dies (segfault, os._exit) is itself a result."""
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool

    ctx = mp.get_context("fork")
    ex = ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_worker_init, initargs=(scratch,))
    todo = dict(enumerate(batches))
    try:
        futs = {ex.submit(_do, b): i for i, b in enumerate(batches)}
        try:
            for f in as_completed(futs):
                res = f.result()
                todo.pop(futs[f])
                yield res
            return
        except BrokenProcessPool:
            pass
    finally:
        procs = list(getattr(ex, "_processes", None) or {})
        ex.shutdown(wait=False, cancel_futures=True)
        for pid in procs:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    for b in list(todo.values()):
        for item in b:
            yield _isolated(ctx, item, scratch)


def _isolated(ctx, item, scratch):
    rd, wr = ctx.Pipe(False)

    def body():
        _worker_init(scratch)
        wr.send(_do([item]))
        wr.close()
        os._exit(0)

    p = ctx.Process(target=body)
    p.start()
    wr.close()
    try:
        res = rd.recv()
    except EOFError:
        res = None
    p.join()
    if res is None:
        idx, case = item
        return [(idx, set(), 0, 0, {}, [], [(default_key(case), f"the process died (exit code {p.exitcode})")], 0.0)]
    return res


def replay(prop, path):
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    data = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    try:
        if hasattr(mod, "setup"):
            mod.setup(data["tier"], scratch)
        _worker_init(scratch)
        _rec, bad = run_case(mod, data["case"])
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    for k, m in bad:
        print(f"violated on {k}\n  {m}")
    if any(k == data["key"] for k, _ in bad):
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("replay: not reproduced")
    return 0
