"""C25: every run uses the options in force, and backends do not share them."""
from __future__ import annotations

import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import gates as G
from mc.checks.c23 import InlinePool, Uncontrolled, patched, tagged_rng
from mc.core import require

PROPERTY = "C25"
RULE = ("every history of constructing a backend with options, setting options (valid and invalid) and running, on two backends of one "
        "provider; options, attributes, counts, files and state vectors against a reference; every name query to the provider")
BOUNDS = {"quick": "histories of 2 operations from 26 on two backends, 4 backend kinds x 5 constructions; of 3 from 16", "thorough": "of 3 from 26, all kinds; of 4 from 16"}
ASSUMPTIONS = ["options given to a run stay in force afterwards, as the backend's options show; what remains after a refused run is not judged"]
CASE_LIMIT_S = 300

KINDS = {"tnsim": "TNSim", "misim": "MISim", "innsbruck01": "Innsbruck01", "faketraps2trits": "FakeIonTraps2Trits", "faketraps2six": "FakeIonTraps2Six", "faketraps3six": "FakeIonTraps3Six"}
DEFAULT = {"shots": 50, "memory": False, "noise_model": None}
FIELDS = ["shots", "memory", "noise_model", "file_path", "file_name", "full_state_memory"]
BUILD = [{}, {"shots": 51}, {"noise_model": "A"}, {"noise_model": None}, {"shots": 52, "noise_model": "B", "memory": True, "file_path": "box", "file_name": "a.h5"}]
OPS = [
    ["set", {"shots": 53}], ["set", {"noise_model": "A"}], ["set", {"noise_model": None, "memory": True}], ["set", {"colour": 1}],
    ["set", {"shots": 54, "colour": 1}], ["set", {"keys": 1}], ["set", {"full_state_memory": True, "file_path": "box", "file_name": "b.h5"}],
    ["run", {}], ["run", {"shots": 55}], ["run", {"noise_model": "B"}], ["run", {"noise_model": None}], ["run", {"shots": 49}],
    ["run", {"noise_model": "A", "memory": True, "file_path": "box", "file_name": "c.h5"}],
]


def setup(tier, scratch):
    from mc import cpp

    cpp.use_current_bindings(scratch)


def cases(tier, seed):
    deep = tier == "thorough"
    kinds = list(KINDS) if deep else ["tnsim", "misim", "faketraps2trits", "innsbruck01"]
    for kind in kinds:
        for b in range(len(BUILD)):
            for first in itertools.product(range(len(OPS)), range(2)):
                yield {"kind": "history", "backend": kind, "build": b, "pre": [list(first)], "depth": 3 if deep else 2}
    for first in itertools.product(few(), repeat=2):
        yield {"kind": "history", "backend": "tnsim", "build": 0, "pre": [list(x) for x in first], "depth": 4 if deep else 3, "few": True}
    for kind in KINDS:
        yield {"kind": "names", "name": kind}
    yield {"kind": "names", "name": ""}


def few():
    return [(o, 0) for o in range(len(OPS))] + [(0, 1), (7, 1), (9, 1)]


def check(case, rec):
    import io
    from contextlib import redirect_stdout

    with redirect_stdout(io.StringIO()):
        try:
            globals()["check_" + case["kind"]](case, rec)
        except Uncontrolled:
            rec.count("uncontrolled")


def check_names(case, rec):
    from mqt.qudits.simulation import MQTQuditProvider

    p, name = MQTQuditProvider(), case["name"]
    require(p.backends() == list(KINDS) or set(p.backends()) == set(KINDS), lambda: f"backends() {p.backends()}", name)
    parts = {name[i:j] for i in range(len(name)) for j in range(i + 1, len(name) + 1)} or {None, "nothing", "tnsimx", "sim|fake", "(", ""}
    for part in sorted(parts, key=str):
        if part is None or part == "(":
            want = None
        elif part in KINDS:
            want = [part]
        else:
            want = [k for k in KINDS if any(x in k for x in part.split("|"))]
        try:
            got = p.get_backend(part)
        except Exception as e:  # noqa: BLE001
            got = e
        if want is not None and len(want) == 1:
            require(type(got).__name__ == KINDS[want[0]], lambda: f"get_backend({part!r}) gives {got!r}", str(part))
            require(got.provider == p and isinstance(got.name, (str, type(None))), "the backend names another provider", str(part))
        else:
            require(isinstance(got, Exception) and (part == "(" or isinstance(got, ValueError)), lambda: f"get_backend({part!r}) gives {got!r} although {want} match", str(part))
        if want:
            listed = p.backends(part)
            require(sorted(listed) == sorted(k for k in KINDS if any(x in k for x in part.split("|"))), lambda: f"backends({part!r}) {listed}", str(part))
        rec.step()
        rec.state(str(part))
    rec.trace()


def models():
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel

    a, b = NoiseModel(), NoiseModel()
    a.add_quantum_error_locally(Noise(0.3, 0.0), ["x"])
    return {"A": a, "B": b, None: None}  # B names no gate: a run with it still takes its shots


def check_history(case, rec):
    pairs = few() if case.get("few") else list(itertools.product(range(len(OPS)), range(2)))
    for rest in itertools.product(pairs, repeat=case["depth"] - len(case["pre"])):
        box = tempfile.mkdtemp(prefix="c25-")
        try:
            run_history(case, [tuple(x) for x in case["pre"]] + list(rest), box, rec)
        finally:
            shutil.rmtree(box)


def run_history(case, ops, box, rec):
    from mqt.qudits.simulation import MQTQuditProvider

    kind, named = case["backend"], models()
    names = {id(v): k for k, v in named.items()}

    def real(fields):
        out = dict(fields)
        if "noise_model" in out:
            out["noise_model"] = named[out["noise_model"]]
        if "file_path" in out:
            out["file_path"] = box
        return out

    key = f"{kind}({BUILD[case['build']]}) " + " ; ".join(f"{'AB'[w]}.{OPS[o][0]}{OPS[o][1]}" for o, w in ops)
    provider = MQTQuditProvider()
    pair = [provider.get_backend(kind, **real(BUILD[case["build"]])), provider.get_backend(kind)]
    own = [pair[0].options.get("noise_model"), pair[1].options.get("noise_model")]
    refs = []
    for k, fields in enumerate((BUILD[case["build"]], {})):
        r = {**DEFAULT, **real(fields)}
        if kind.startswith("fake") and "noise_model" not in fields:
            require(own[k] is not None, "the machine's own noise model is missing", key)
            names[id(own[k])] = "own"
            r["noise_model"] = own[k]
        refs.append(r)
    circ = G.build([2], [["x", [0], None, None, False]])

    def show(o):
        return {f: names.get(id(v), "other") if f == "noise_model" else v for f, v in o.items()}

    def compare(when):
        for k in range(2):
            got = {f: v for f, v in pair[k].options.items() if f in FIELDS}
            require(show(got) == show(refs[k]), lambda: f"{when}: options of backend {'AB'[k]} are {show(got)}, expected {show(refs[k])}", key)

    compare("after construction")
    for i, (o, w) in enumerate(ops):
        op, fields = OPS[o]
        be, ref = pair[w], refs[w]
        rec.step()
        if op == "set":
            try:
                be.set_options(**real(fields))
                ok = True
            except AttributeError:
                ok = False
            valid = all(f in FIELDS for f in fields)
            require(ok == valid, lambda: f"operation {i + 1}: set_options({fields}) is {'accepted' if ok else 'refused'}", key)
            if valid:
                ref.update(real(fields))
            compare(f"after operation {i + 1}")
            continue
        before = set(os.listdir(box))
        for f in before:
            os.remove(os.path.join(box, f))
        ref.update(real(fields))
        noisy, shots = ref["noise_model"] is not None, ref["shots"]
        try:
            with patched(InlinePool, 1, tagged_rng):
                res = be.run(circ, **real(fields)).result()
        except AssertionError:
            res = None
        refused = shots < 50 and (noisy or kind == "innsbruck01")
        require((res is None) == refused, lambda: f"operation {i + 1}: the run is {'refused' if res is None else 'accepted'}", key)
        if refused:
            break
        compare(f"after operation {i + 1}")
        got = {f: getattr(be, f) for f in FIELDS}
        want = {"full_state_memory": False, "file_path": None, "file_name": None, **ref}
        require(show(got) == show(want), lambda: f"operation {i + 1}: the run used {show(got)}, in force was {show(want)}", key)
        if kind != "innsbruck01":
            vec = np.ravel(res.get_state_vector())
            require(np.allclose(vec, [0, 1]), lambda: f"state vector {vec.tolist()}", key)
            n = len(res.get_counts())
            require(n == (shots if noisy else 0), lambda: f"operation {i + 1}: {n} counts", key)
            wanted = noisy and want["file_path"] and want["file_name"] and (want["memory"] or want["full_state_memory"])
            files = sorted(os.listdir(box))
            require(files == ([want["file_name"]] if wanted else []), lambda: f"operation {i + 1}: files {files}", key)
    rec.state((kind, case["build"], *ops))
    rec.trace()
