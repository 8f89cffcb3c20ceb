"""C04: the decision-diagram simulator agrees with the circuit's meaning on every supported gate."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc import cpp
from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C04"
RULE = ("all gate sequences up to the depth over the gates the decision-diagram backend supports (all level pairs, "
        "all target tuples in both orders, controls on either side, adjoints), run through the bindings compiled from "
        "the working tree on one reused backend; amplitudes compared with the reference evolution")
BOUNDS = {
    "quick": "1 line d=2..7 all parameters depth 1 and short alphabet depth 2; 2 lines (dims in 2..7) depth 1 rich / depth 2 short; 3 lines depth 2 short; 4 and 5 lines depth 1; every gate under every choice of controls and levels on 5 registers depth 1",
    "thorough": "the same with every ordered pair of dims 2..7 at 2 lines, depth 3 at one line, depth 2 rich at 2 lines, 3 lines depth 2 on 6 shapes, controls on 10 registers",
}
ASSUMPTIONS = ["bindings compiled with g++ -O1 from the working tree (the shipped build uses -Os/LTO)", "amplitudes compared to 1e-6"]
SUP = {"r", "rz", "rh", "virtrz", "x", "z", "s", "h", "csum", "cx"}


def setup(tier, scratch):
    cpp.use_current_bindings(scratch)


def one_line(d):
    out = []
    for a, b in itertools.permutations(range(d), 2):
        out += [["r", [0], [a, b, 0.7, 0.4]], ["r", [0], [a, b, -2.1, 2.5]], ["rz", [0], [a, b, 0.9]], ["rh", [0], [a, b]]]
    for a in range(d):
        out += [["virtrz", [0], [a, 1.1]], ["virtrz", [0], [a, math.pi]], ["noisez", [0], [a]]]
    out += [[g, [0], None] for g in ("x", "z", "h")]
    out += [["r", [0], [0, 1, t, p]] for t in (math.pi, 2 * math.pi, 0.01, -0.01) for p in (0.0, math.pi / 2, math.pi)]
    if d in (2, 3, 5, 7):
        out.append(["s", [0], None])
    return [s + [None, dag] for s in out for dag in (False, True)]


def cx_all(dims):
    return [["cx", [a, b], [la, lb, lev, ang], None, dag] for a, b in itertools.permutations(range(2), 2)
            for la, lb in itertools.combinations(range(dims[b]), 2) for lev in range(dims[a])
            for ang in (0.0, 0.6, math.pi / 2) for dag in (False, True)]


KNOWN = "attached controls are not applied"


def ignoring(specs, dims):
    """The state when attached controls have no effect (a recorded finding)."""
    return G.ref_circuit([[*s[:3], None, s[4]] for s in specs], dims)[:, 0]


def controls(dims):
    """Every supported kind of gate on every line, under every choice of control lines (both orders) and control levels."""
    n = len(dims)
    out = []
    for q in range(n):
        d = dims[q]
        others = [i for i in range(n) if i != q]
        for k in range(1, n):
            for cs in itertools.permutations(others, k):
                for lv in itertools.product(*[range(dims[c]) for c in cs]):
                    ctl = [list(x) for x in zip(cs, lv)]
                    full = k < 2 or sum(lv) % 2 == 0
                    kinds = [["r", [q], [0, d - 1, 0.7, 0.4]], ["x", [q], None]]
                    if full:
                        kinds += [["virtrz", [q], [d - 1, 1.1]], ["rz", [q], [1, 0, 0.9]], ["h", [q], None], ["z", [q], None], ["rh", [q], [0, 1]]]
                        kinds += [["s", [q], None]] * (d in (2, 3, 5, 7))
                    out += [[*s, ctl, dag] for s in kinds for dag in (False, True)]
    return out


def alphabet(case):
    dims = case["dims"]
    if case["alpha"] == "controls":
        return controls(dims)
    if case["alpha"] == "one":
        return one_line(dims[0])
    if case["alpha"] == "cx":
        return cx_all(dims) + [["csum", [a, b], None, None, dag] for a, b in ((0, 1), (1, 0)) for dag in (False, True)]
    return G.alphabet(dims, case["alpha"] == "rich", only=SUP)


def cases(tier, seed):
    deep = tier == "thorough"
    for dims, s in UNSUP:
        for dag in (False, True):
            yield {"dims": dims, "unsupported": [*s, None, dag]}
    for dims in [[3], [2, 3], [3, 2], [2, 3, 2]] + ([[4], [7], [3, 3], [2, 4], [4, 3, 2]] if deep else []):
        for i, fam in enumerate(G.twins(dims)):
            if any(s[0] in SUP for s in fam):
                yield {"dims": dims, "twins": i}
    for d in range(2, 8):
        yield from mk([d], "one", 1)
        yield from mk([d], "short", 3 if deep else 2)
    two = list(itertools.product(range(2, 8), repeat=2)) if deep else [(2, 2), (2, 3), (3, 2), (3, 4), (4, 3), (5, 2), (3, 5), (6, 2), (2, 7), (7, 3), (4, 4)]
    for dims in two:
        yield from mk(list(dims), "rich", 1)
        yield from mk(list(dims), "cx", 1)
    for dims in ([[2, 2], [2, 3], [3, 2], [4, 3], [3, 3], [5, 2]] if deep else [[2, 3], [3, 2], [3, 4]]):
        yield from mk(dims, "rich" if deep else "short", 2)
    for dims in ([[2, 2, 2], [2, 3, 2], [3, 2, 4], [4, 2, 3], [3, 3, 2], [5, 2, 3]] if deep else [[2, 3, 2], [3, 2, 4]]):
        yield from mk(dims, "short", 2)
        yield from mk(dims, "rich", 1)
    for dims in ([2, 3], [4, 2], [2, 3, 4], [3, 2, 3], [2, 3, 2, 2]) + (([5, 2], [3, 7], [6, 3], [3, 3, 3], [2, 2, 2, 2, 2]) if deep else ()):
        yield from mk(dims, "controls", 1)
    for dims in ([2, 3, 2, 2], [3, 2, 2, 3], [2, 2, 3, 4]) + (([2, 2, 3, 2, 2],) if deep else ()):
        yield from mk(dims, "rich", 1)
    # equal lines, and more lines
    for dims in ([2, 2, 2], [3, 3, 3], [2, 2, 2, 2], [2, 2, 2, 2, 2], [2, 3, 2, 2, 3]) + (([4, 4, 4], [2] * 6, [3, 2, 2, 2, 2, 3]) if deep else ()):
        yield from mk(dims, "short", 1)


UNSUP = [([3], ["cu_one", [0], "u1"]), ([3], ["pm", [0], [1, 2, 0]]), ([3], ["noisex", [0], [0, 2]]), ([2], ["noisey", [0], [0, 1]]),
         ([2, 2], ["ls", [0, 1], [0.3]]), ([2, 3], ["ms", [0, 1], [0.3]]), ([2, 3], ["cu_two", [0, 1], "u1"]),
         ([2, 2, 2], ["cu_multi", [0, 1, 2], "u1"]), ([8], ["x", [0], None]), ([8], ["r", [0], [0, 1, 0.3, 0.2]]),
         ([9], ["rz", [0], [0, 1, 0.3]]), ([2, 8], ["csum", [0, 1], None]), ([2, 8], ["cx", [0, 1], None]),
         ([8, 2], ["h", [0], None])]


def mk(dims, alpha, depth):
    n = len(alphabet({"dims": dims, "alpha": alpha}))
    if depth == 1:
        yield {"dims": dims, "alpha": alpha, "depth": 1, "first": None}
    else:
        for i in range(n):
            yield {"dims": dims, "alpha": alpha, "depth": depth, "first": i}


def twins(case, rec):
    """All ordered pairs of near-identical supported gates, with and without an unrelated gate between them."""
    from mqt.qudits.simulation import MQTQuditProvider

    dims = case["dims"]
    backend = MQTQuditProvider().get_backend("misim")
    fam = [s for s in G.twins(dims)[case["twins"]] if s[0] in SUP]
    pre = [["h", [q], None, None, False] for q in range(len(dims))] + [["r", [q], [0, 1, 0.9 + q, 0.3], None, False] for q in range(len(dims))]
    base = G.ref_circuit(pre, dims)[:, 0]
    sep = ["r", [len(dims) - 1], [0, 1, 1.3, 0.8], None, False]
    mats = {repr(s): G.ref_full(s, dims) for s in [*fam, sep]}
    for a, b in itertools.product(fam, repeat=2):
        for tail in ([a, b], [a, sep, b]):
            want = base
            for s in tail:
                want = mats[repr(s)] @ want
            got = np.asarray(backend.run(G.build(dims, pre + tail)).result().get_state_vector()).reshape(-1)
            rec.step(len(pre) + len(tail))
            rec.trace()
            rec.state((dims, ref.canon(want)))
            if any(s[3] for s in tail) and not ref.same(got, want, 1e-6) and ref.same(got, ignoring(pre + tail, dims), 1e-6):
                rec.finding(KNOWN, f"dims={dims} {tail}: simulated as if no control were attached")
                continue
            require(ref.same(got, want, 1e-6), lambda: f"state differs\n got {np.round(got, 4)}\nwant {np.round(want, 4)}", f"dims={dims} twins {tail}")


def check(case, rec):
    from mqt.qudits.simulation import MQTQuditProvider

    if "twins" in case:
        return twins(case, rec)

    dims = case["dims"]
    n = len(dims)
    if "unsupported" in case:
        return unsupported(dims, case["unsupported"], rec)
    al = alphabet(case)
    backend = MQTQuditProvider().get_backend("misim")
    cache = {}

    def mat(s):
        k = repr(s)
        if k not in cache:
            cache[k] = G.ref_full(s, dims)
        return cache[k]

    # an entangled-enough start with pairwise distinct amplitudes, made of supported gates only
    local = []
    for q in range(n):
        for lv in range(dims[q] - 1):
            local.append(["r", [q], [lv, lv + 1, 1.1 + 0.37 * q + 0.21 * lv, 0.3 + 0.5 * lv + 0.11 * q], None, False])
    if case["first"] is None:
        tails = [[]] + [[s] for s in al]
    else:
        tails = [[al[case["first"]], *rest] for k in range(case["depth"]) for rest in itertools.product(al, repeat=k)]
    bad = 0
    for prefix in ([], local):
        base = np.zeros(int(np.prod(dims)), dtype=complex)
        base[0] = 1
        for s in prefix:
            base = mat(s) @ base
        for tail in tails:
            if not prefix and len(tail) > 1 and n > 1:
                continue
            want = base
            for s in tail:
                want = mat(s) @ want
            circ = G.build(dims, prefix + tail)
            got = np.asarray(backend.run(circ).result().get_state_vector()).reshape(-1)
            rec.step(len(prefix) + len(tail))
            rec.trace()
            rec.state((dims, ref.canon(want)))
            if got.shape != want.shape or not ref.same(got, want, 1e-6):
                seq = prefix + tail
                if any(s[3] for s in seq) and ref.same(got, ignoring(seq, dims), 1e-6):
                    rec.finding(KNOWN, f"dims={dims} {tail}: simulated as if no control were attached")
                    continue
                rec.finding(f"dims={dims} {'generic+' if prefix else ''}{tail}", f"state differs from the circuit's meaning\n got {np.round(got, 4)}\nwant {np.round(want, 4)}")
                bad += 1
                if bad > 20:
                    return
            require(circ.dimensions == dims and len(circ.instructions) == len(prefix) + len(tail), "simulation changed the circuit", f"{dims} {tail}")


def unsupported(dims, spec, rec):
    """A gate the diagram package has no construction for: an error, or the right state; never a wrong one or a crash."""
    from mqt.qudits.simulation import MQTQuditProvider

    circ = G.build(dims, [spec])
    want = G.ref_circuit([spec], dims)[:, 0]
    rec.step()
    rec.trace()
    try:
        got = np.asarray(MQTQuditProvider().get_backend("misim").run(circ).result().get_state_vector()).reshape(-1)
    except Exception as e:  # noqa: BLE001
        rec.state((dims, spec, type(e).__name__))
        rec.count("refused_unsupported")
        return
    rec.state((dims, spec, "ok"))
    require(ref.same(got, want, 1e-6), f"unsupported gate silently simulated wrongly: {got}", f"{dims} {spec}")
