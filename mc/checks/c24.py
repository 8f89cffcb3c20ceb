"""C24: waiting for a job ends when the job has ended; job ids are unique."""
from __future__ import annotations

import contextlib
import itertools
import time

from mc.core import require

PROPERTY = "C24"
RULE = ("every sequence of statuses a job can report x timeout x polling interval x duration of the callback, under a virtual clock; every "
        "clock pattern over the creation of several jobs")
BOUNDS = {"quick": "status sequences up to 5, 6 timeouts, 3 intervals; 5 jobs x all clock patterns", "thorough": "status sequences up to 7; 8 jobs"}
ASSUMPTIONS = ["time passes only in time.sleep and callbacks (virtual clock behind time.time and time.monotonic)"]

STATUS = ["INITIALIZING", "QUEUED", "VALIDATING", "RUNNING", "CANCELLED", "DONE", "ERROR"]
FINAL = {"CANCELLED", "DONE", "ERROR"}
TIMEOUTS = [None, 0, 1, 5, 7.5, 60]


def cases(tier, seed):
    deep = tier == "thorough"
    live = [s for s in STATUS if s not in FINAL]
    for n in range(8 if deep else 6):
        for pre in itertools.product(live, repeat=n):
            if deep or n < 5 or len(set(pre)) <= 3:
                yield {"kind": "wait", "pre": list(pre)}
    for a in STATUS:
        yield {"kind": "status", "status": a}
    n = 8 if deep else 5
    for pattern in itertools.product((0, 1), repeat=n):
        yield {"kind": "ids", "pattern": list(pattern)}


@contextlib.contextmanager
def virtual_time(pattern=None):
    class C:
        now, calls = 1_700_000_000.0, 0

    def read():
        if pattern is not None:
            if C.calls < len(pattern) and pattern[C.calls]:
                C.now += 0.001
            C.calls += 1
        return C.now

    def sleep(s):
        C.now += s

    keep = (time.time, time.monotonic, time.perf_counter, time.sleep, time.time_ns)
    time.time = time.monotonic = time.perf_counter = read
    time.time_ns = lambda: int(read() * 1e9)
    time.sleep = sleep
    try:
        yield C
    finally:
        time.time, time.monotonic, time.perf_counter, time.sleep, time.time_ns = keep


def scripted(statuses):
    from mqt.qudits.simulation.jobs import Job, JobStatus

    class Scripted(Job):
        polls = 0

        def status(self):
            s = statuses[min(self.polls, len(statuses) - 1)]
            self.polls += 1
            return JobStatus[s]

    return Scripted


class Endless(BaseException):
    pass


def check(case, rec):
    globals()["check_" + case["kind"]](case, rec)


def check_wait(case, rec):
    from mqt.qudits.exceptions import JobTimeoutError

    for last in sorted(FINAL):
        seq = [*case["pre"], last]
        for timeout, wait, cost in itertools.product(TIMEOUTS, (1, 5, 0.5), (0, 2, None)):
            key = f"{seq} timeout={timeout} wait={wait} callback={'none' if cost is None else cost}"
            with virtual_time() as clock:
                t0 = clock.now
                job = scripted(seq)(None, "j1")
                seen = []

                def callback(jid, status, j):
                    seen.append((jid, status.name, j is job))
                    clock.now += cost
                    if len(seen) > 4 * len(seq) + 40:
                        raise Endless

                real_sleep = time.sleep

                def sleep(s):
                    real_sleep(s)
                    if job.polls > 4 * len(seq) + 40:
                        raise Endless

                time.sleep = sleep
                try:
                    job.wait_for_final_state(timeout=timeout, wait=wait, **({"callback": callback} if cost is not None else {}))
                    end = "returned"
                except JobTimeoutError:
                    end = "timeout"
                except Endless:
                    end = "never"
                took = clock.now - t0
            rec.step()
            require(end != "never", "the wait goes on although the job has ended", key)
            # reference: poll k happens after k intervals and callbacks; the first final poll ends the wait
            per, k = wait + (cost or 0), len(seq) - 1
            expired = next((i for i in range(k) if timeout is not None and i * per >= timeout), None)
            require(end == ("returned" if expired is None else "timeout"), lambda: f"the wait ended by '{end}' after {took} s", key)
            want = seq[:-1] if expired is None else seq[:expired]
            if cost is not None:
                require([s for _, s, _ in seen] == want and all(j == "j1" and same for j, _, same in seen), lambda: f"callbacks {seen}", key)
            require(abs(took - per * len(want)) < 1e-6, lambda: f"waited {took} s for {len(want)} unfinished polls", key)
        rec.state(tuple(seq))
    rec.trace()


def check_status(case, rec):
    from mqt.qudits.exceptions import JobError
    from mqt.qudits.simulation.jobs import Job, JobStatus

    s = case["status"]
    st = JobStatus[s]
    job = scripted([s])(None, "x")
    require(job.in_final_state() == (s in FINAL), lambda: f"in_final_state() is {job.in_final_state()}", s)
    require(st.is_final == (s in FINAL) and (st in JobStatus.non_final_states()) == (s not in FINAL), "is_final/non_final_states disagree", s)
    require((job.done(), job.running(), job.cancelled()) == (s == "DONE", s == "RUNNING", s == "CANCELLED"), "done/running/cancelled", s)
    for text in (st.value, s, s.capitalize()):
        require(JobStatus.from_string(text) is st, lambda: f"from_string({text!r})", s)
    require(isinstance(str(st), str) and len({str(x) for x in JobStatus}) == len(STATUS), "descriptions are not distinct", s)
    for bad in ("", s + "x", "job"):
        try:
            JobStatus.from_string(bad)
            ok = True
        except ValueError:
            ok = False
        require(not ok, lambda: f"from_string({bad!r}) accepted", s)
    try:
        Job(None).backend()
        ok = True
    except JobError:
        ok = False
    require(not ok, "a job without a backend names one", s)
    marker = object()
    require(Job(marker, "n").backend() is marker and Job(marker, "n").job_id() == "n", "backend or id is not the one given", s)
    result = object()
    job.set_result(result)
    require(job.result() is result, "result() is not the result set", s)
    rec.step()
    rec.state(s)
    rec.trace()


def check_ids(case, rec):
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.jobs import Job
    from mc import gates as G

    for source in ("jobs", "runs"):
        with virtual_time(case["pattern"]):
            if source == "jobs":
                jobs = [Job(None) for _ in case["pattern"]]
            else:
                be = [MQTQuditProvider().get_backend("tnsim"), MQTQuditProvider().get_backend("tnsim")]
                circ = G.build([2], [["x", [0], None, None, False]])
                jobs = [be[k % 2].run(circ) for k in range(len(case["pattern"]))]
        ids = [j.job_id() for j in jobs]
        key = f"{source} clock {case['pattern']} pid {'own'}"
        require(all(isinstance(i, str) and i for i in ids) and len(set(ids)) == len(ids), lambda: f"ids {ids} are not unique", key)
        require(ids == [j.job_id() for j in jobs], "an id changed", key)
        rec.step()
    rec.state(tuple(case["pattern"]))
    rec.trace()
