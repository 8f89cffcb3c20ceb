"""C20: the named states are what their names say, and can be prepared."""
from __future__ import annotations

import itertools

import numpy as np

from mc.checks.c18 import fidelity, prepare
from mc.core import require

PROPERTY = "C20"
RULE = "every register shape within the bound x every named state: vector compared with its definition, prepared circuit compared with the vector; generated random states normalised; unknown names refused; normalisation test on a grid of vectors"
BOUNDS = {"quick": "up to 4 lines of 2..4 levels, one line up to 39, two up to 12, three up to 8 (150 entries), up to 7 qubits (vector), prepared up to 36 entries; 5 unknown names", "thorough": "up to 5 lines of 2..4 levels, one line up to 64, two up to 19, three up to 11 (600 entries), up to 8 qubits, prepared up to 81 entries"}
NAMES = ("ghz", "qudit-w-state", "embedded-w-state")


def cases(tier, seed):
    deep = tier == "thorough"
    shapes = [s for n in range(1, 6 if deep else 5) for s in itertools.product((2, 3, 4), repeat=n) if np.prod(s) <= 256]
    cap = 600 if deep else 150
    more = [(d,) for d in range(5, 65 if deep else 40)] + list(itertools.product(range(2, 20 if deep else 13), repeat=2))
    more += list(itertools.product((2, 3, 5, 7, 8) if not deep else range(2, 12), repeat=3)) + [(2,) * n for n in (5, 6, 7, 8)[:4 if deep else 3]]
    more += [(2, 3, 2, 5), (5, 2, 2, 3), (2, 2, 2, 7), (3, 2, 2, 2, 2), (2, 2, 3, 2, 2), (2, 2, 2, 2, 3)]
    shapes += [s for s in more if np.prod(s) <= cap and s not in shapes]
    for i in range(0, len(shapes), 4):
        yield {"shapes": [list(s) for s in shapes[i:i + 4]], "limit": 81 if deep else 36}


def digits(i, dims):
    out = []
    for d in reversed(dims):
        out.insert(0, i % d)
        i //= d
    return out


def definition(dims, name):
    n = int(np.prod(dims))
    v = np.zeros(n)
    for i in range(n):
        x = digits(i, dims)
        if name == "ghz":
            v[i] = len(set(x)) == 1
        else:
            nz = [e for e in x if e]
            v[i] = len(nz) == 1 and (name == "qudit-w-state" or nz[0] == 1)
    return v / np.linalg.norm(v)


def check(case, rec):
    from mqt.qudits.compiler.state_compilation.retrieve_state import (
        generate_all_combinations, generate_random_quantum_state, generate_uniform_state, verify_normalized_state)

    for dims in case["shapes"]:
        n = int(np.prod(dims))
        require(generate_all_combinations(list(dims)) == [digits(i, dims) for i in range(n)], "basis states listed wrongly", f"{dims}")
        for name in NAMES:
            key = f"{name} {dims}"
            given = list(dims)
            v = np.asarray(generate_uniform_state(given, name))
            require(given == dims, "the caller's list was modified", key)
            want = definition(dims, name)
            require(v.shape == (n,) and np.allclose(v, want), "vector is not the state", key)
            rec.step()
            rec.state((name, *dims))
            if n <= case["limit"]:
                _, got = prepare(dims, v, rec, key)
                require(fidelity(got, want) > 1 - 1e-6, "prepared circuit gives another state", key)
        for bad in ("GHZ", "w", "", "w-state", "ghz "):
            try:
                generate_uniform_state(list(dims), bad)
            except Exception:  # noqa: BLE001
                continue
            require(False, "unknown state name accepted", f"{bad!r} {dims}")
        r = np.asarray(generate_random_quantum_state(list(dims)))
        require(r.shape == (n,) and abs(np.linalg.norm(r) - 1) < 1e-9 and verify_normalized_state(r), "random state not a state", f"{dims}")
        for s in (0.0, 0.5, 0.99, 1.01, 2.0):
            require(not verify_normalized_state(r * s), f"a vector of norm {s} passes as normalised", f"{dims}")
        rec.trace()
