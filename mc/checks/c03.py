"""C03: the tensor-network simulator returns exactly the state the circuit denotes."""
from __future__ import annotations

import itertools

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C03"
RULE = ("all gate sequences up to the depth over the alphabet (every gate family, all target tuples in both orders, "
        "controls on either side), from the ground state and from a generic product state, simulated on one backend "
        "object that is reused from circuit to circuit; amplitudes compared with the reference evolution")
BOUNDS = {
    "quick": "all ordered pairs of near-identical gates (twins) on 4 registers; registers 1..4 lines (dims listed in the cases); depth 2 over the full alphabet up to 2 lines, depth 2 over every (gate, gate) pair of the short alphabet at 3 lines, depth 1 at 4 and 5 lines, on equal lines and up to 12 levels",
    "thorough": "depth 3 at 1 line, depth 2 full alphabet at 2-3 lines, depth 2 short alphabet at 4 lines, depth 1 at 5 lines",
}


def cases(tier, seed):
    one = [[2], [3], [4], [5], [6]]
    two = [[2, 2], [2, 3], [3, 2], [3, 4], [4, 2], [3, 3]]
    three = [[2, 2, 2], [2, 3, 2], [3, 2, 4], [4, 2, 3]]
    four = [[2, 3, 2, 2], [3, 2, 2, 3], [2, 2, 3, 4]]
    five = [[2, 2, 3, 2, 2], [3, 2, 2, 2, 2]]
    deep = tier == "thorough"
    for dims in one:
        yield from mk(dims, True, 3 if deep else 2)
    for dims in two:
        yield from mk(dims, True, 2)
    for dims in three:
        yield from mk(dims, deep, 2)
    for dims in four:
        yield from mk(dims, False, 2 if deep else 1)
    for dims in [[3], [2, 3], [3, 2], [3, 2, 3]] + ([[4], [3, 3], [2, 4], [4, 3, 2], [2, 2, 2]] if deep else []):
        for i in range(len(G.twins(dims))):
            yield {"dims": dims, "twins": i}
    if deep:
        for dims in five:
            yield from mk(dims, True, 1)
    # equal lines, more lines, long gates over many lines, more levels
    for dims in ([3, 3, 3], [2, 2, 2, 2], [2, 2, 2, 2, 2], [2, 3, 2, 2, 3], [7], [12], [5, 2], [2, 7]):
        yield from mk(dims, deep and len(dims) < 5, 1)


def mk(dims, rich, depth):
    al = G.alphabet(dims, rich)
    yield {"dims": dims, "rich": rich, "depth": depth, "first": None}
    for i in range(len(al)):
        yield {"dims": dims, "rich": rich, "depth": depth, "first": i}


def twins(case, rec):
    """All ordered pairs of near-identical gates, with and without an unrelated gate between them."""
    from mqt.qudits.simulation import MQTQuditProvider

    dims = case["dims"]
    backend = MQTQuditProvider().get_backend("tnsim")
    fam = G.twins(dims)[case["twins"]]
    pre = [["cu_one", [q], f"p{q}", None, False] for q in range(len(dims))]
    base = G.ref_circuit(pre, dims)[:, 0]
    sep = ["cu_one", [len(dims) - 1], "u3", None, False]
    mats = {repr(s): G.ref_full(s, dims) for s in [*fam, sep]}
    for a, b in itertools.product(fam, repeat=2):
        for tail in ([a, b], [a, sep, b]):
            want = base
            for s in tail:
                want = mats[repr(s)] @ want
            got = np.asarray(backend.run(G.build(dims, pre + tail)).result().get_state_vector()).reshape(-1)
            rec.step(len(pre) + len(tail))
            rec.trace()
            rec.state((dims, ref.canon(want)))
            require(ref.same(got, want, 1e-7), lambda: f"state differs\n got {np.round(got, 4)}\nwant {np.round(want, 4)}", f"dims={dims} twins {tail}")


def check(case, rec):
    from mqt.qudits.simulation import MQTQuditProvider

    if "twins" in case:
        return twins(case, rec)

    dims = case["dims"]
    al = G.alphabet(dims, case["rich"])
    backend = MQTQuditProvider().get_backend("tnsim")
    n = len(dims)
    mats = {}

    def mat(s):
        k = repr(s)
        if k not in mats:
            mats[k] = G.ref_full(s, dims)
        return mats[k]

    local = [["cu_one", [q], f"p{q}", None, False] for q in range(n)]
    if case["first"] is None:
        tails = [[]]
    else:
        tails = [[al[case["first"]], *rest] for k in range(case["depth"]) for rest in itertools.product(al, repeat=k)]
    for prefix in ([], local):
        base = np.zeros(int(np.prod(dims)), dtype=complex)
        base[0] = 1
        for s in prefix:
            base = mat(s) @ base
        for tail in tails:
            if not prefix and len(tail) > 1 and n > 1:
                continue
            want = base
            for s in tail:
                want = mat(s) @ want
            circ = G.build(dims, prefix + tail)
            before = len(circ.instructions)
            got = np.asarray(backend.run(circ).result().get_state_vector())
            key = f"dims={dims} {prefix + tail}"
            rec.step(len(prefix) + len(tail))
            rec.trace()
            rec.state((dims, ref.canon(want)))
            require(got.reshape(-1).shape == want.shape, f"result has shape {got.shape}", key)
            require(ref.same(got.reshape(-1), want, 1e-7), lambda: f"state differs\n got {np.round(got.reshape(-1), 4)}\nwant {np.round(want, 4)}", key)
            require(len(circ.instructions) == before and circ.dimensions == dims, "simulation changed the circuit", key)
    if case["first"] is not None:
        circ = G.build(dims, local + [al[case["first"]]])
        want = mat(al[case["first"]])
        for s in reversed(local):
            want = want @ mat(s)
        a, b = np.asarray(circ.simulate()).reshape(-1), np.asarray(circ.simulate()).reshape(-1)
        rec.trace(2)
        require(ref.same(a, want[:, 0], 1e-7) and ref.same(b, a), "circuit.simulate differs", f"dims={dims} simulate {al[case['first']]}")
