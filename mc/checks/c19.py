"""C19: approximate state preparation loses at most one percent."""
from __future__ import annotations

import itertools

import numpy as np

from mc.checks.c18 import fidelity, prepare, run
from mc.core import require

PROPERTY = "C19"
RULE = ("every state vector with entries from an alphabet of large and small amplitudes on each register, prepared approximately: "
        "fidelity with the requested state at least 0.99, states in which nothing is small enough to drop exact; dropping amplitudes never "
        "brings in others (every prepared amplitude is zero or proportional to the requested one)")
BOUNDS = {"quick": "[2],[3],[5],[2,2]: 7 amplitudes; [3,2],[2,3]: 4; [2,2,2]: 3 (half); [3,3]: 2; shares of 3-5 values around the budget on registers of up to 8; all placements of 3 small shares on [2,2,2],[3,3],[2,3,2],[2,2,2,2]", "thorough": "[3,2],[2,3]: 6; [2,2,2]: 4; [3,3]: 3; [2,3,2]: 2; 4 small shares on registers of up to 12"}
BUDGET = 0.01
SHARES = [0.0, 1.0, 0.0045, 0.008, 0.3, 0.0021]
SMALL = [0.0048, 0.0049, 0.0021, 0.006, 0.0035]
AMPS = [1.0, 0.06, 0.0, 0.09j, 0.02, 1j, -0.3]


def cases(tier, seed):
    deep = tier == "thorough"
    plan = [([2], 7), ([3], 7), ([5], 4), ([2, 2], 7), ([3, 2], 6 if deep else 4), ([2, 3], 6 if deep else 4), ([2, 2, 2], 4 if deep else 3), ([3, 3], 3 if deep else 2)]
    if deep:
        plan += [([2, 3, 2], 2)]
    for dims, k in plan:
        n = int(np.prod(dims))
        for i, pre in enumerate(itertools.product(range(k), repeat=max(0, n - 5))):
            if deep or n != 8 or i % 2 == seed % 2:
                yield {"dims": dims, "k": k, "pre": list(pre)}
    # shares around the budget, and every placement of small shares on larger registers
    for dims, k in [([2, 2], 5), ([5], 5 if deep else 4), ([2, 3], 5 if deep else 4), ([3, 2], 5 if deep else 4), ([2, 2, 2], 4 if deep else 3)]:
        for pre in itertools.product(range(k), repeat=max(0, int(np.prod(dims)) - 4)):
            yield {"kind": "all", "dims": dims, "k": k, "pre": list(pre)}
    for dims in ([2, 2, 2], [3, 3], [2, 3, 2], [2, 2, 2, 2]) + (([4, 3], [2, 2, 3]) if deep else ()):
        n = int(np.prod(dims))
        for first in range(n):
            yield {"kind": "small", "dims": dims, "first": first, "m": 4 if deep and n < 16 else 3}


def check(case, rec):
    if "kind" in case:
        return shares_check(case, rec)
    dims, k = case["dims"], case["k"]
    n = int(np.prod(dims))
    for rest in itertools.product(range(k), repeat=n - len(case["pre"])):
        vec = np.array([AMPS[i] for i in (*case["pre"], *rest)], dtype=complex)
        if not np.any(vec):
            continue
        vec = vec / np.linalg.norm(vec)
        key = f"{dims} {[complex(round(x.real, 4), round(x.imag, 4)) for x in vec]}"
        _, got = prepare(dims, vec, rec, key, True)
        f = fidelity(got, vec)
        require(f > 0.99 - 1e-6, lambda: f"fidelity {f:.5f}", key)
        ph = np.vdot(vec, got)
        kept = np.abs(got) > 1e-4
        scale = got[kept] / vec[kept] if np.all(np.abs(vec[kept]) > 1e-9) else np.array([0, 1])
        require(np.ptp(np.abs(scale)) < 1e-3 and np.abs(scale / abs(scale[0]) - ph / abs(ph)).max() < 2e-3, lambda: f"prepared {np.round(got, 4).tolist()}: not the requested state with small parts dropped", key)
        smallest = np.abs(vec[np.abs(vec) > 0]).min() ** 2
        if smallest > 0.0101:
            require(f > 1 - 1e-6, lambda: f"fidelity {f:.6f} although no part is below one percent", key)
            rec.count("exact")
        elif f < 1 - 1e-6:
            rec.count("approximated")
        rec.state((tuple(dims), *case["pre"], *rest))


def approximate(dims, shares, rec, spread=True):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    shares = np.array(shares, dtype=float)
    big = shares >= 0.1
    small = shares[~big].sum()
    if not big.any():
        if not small:
            return
        shares = shares / small
    else:  # small shares keep their value, the large ones fill up the rest
        shares[big] *= (1 - small) / shares[big].sum()
    n = len(shares)
    vec = np.sqrt(shares) * (np.exp(0.9j * np.arange(n) ** 2) if spread else 1)
    key = f"{dims} {np.round(shares, 4).tolist()} {'phases' if spread else 'real'}"
    circ = QuantumCircuit(len(dims), list(dims), 0)
    given = vec.copy()
    out = circ.set_initial_state(given, True)
    require(np.array_equal(given, vec), "the caller's vector was modified", key)
    got = run(out, dims)
    rec.step(len(out.instructions))
    rec.trace()
    rec.state(key)
    require(abs(np.linalg.norm(got) - 1) < 1e-6, "prepared state not normalised", key)
    f = abs(np.vdot(vec, got)) ** 2
    require(f > 1 - BUDGET - 1e-6, lambda: f"{1 - f:.5f} of the state is lost, more than {BUDGET}", key)
    alive = np.abs(got) > 1e-5
    require(not np.any(alive & (shares == 0)), "an amplitude appears that the state does not have", key)
    dropped = shares[~alive].sum()
    require(dropped < BUDGET + 1e-6, lambda: f"entries with share {dropped:.5f} were dropped", key)
    ratio = got[alive] / vec[alive]
    require(np.abs(ratio - ratio[0]).max() < 1e-3, "kept amplitudes change their ratios", key)
    if dropped:
        rec.count("states with dropped branches")


def shares_check(case, rec):
    dims = case["dims"]
    n = int(np.prod(dims))
    if case["kind"] == "all":
        for rest in itertools.product(range(case["k"]), repeat=n - len(case["pre"])):
            shares = [SHARES[i] for i in (*case["pre"], *rest)]
            approximate(dims, shares, rec)
            if n <= 4:
                approximate(dims, shares, rec, False)
        return
    # one entry after the other gets one of the small shares, everything else is equally large or (second variant) empty but for two entries
    m = case["m"]
    for places in itertools.combinations(range(case["first"] + 1, n), m - 1):
        for pick in ([0, 1, 0, 4], [2, 4, 1, 0], [3, 2, 4, 2]):
            shares = np.ones(n)
            for p, s in zip((case["first"], *places), pick):
                shares[p] = SMALL[s]
            approximate(dims, shares, rec)
            rest = [i for i in range(n) if shares[i] == 1]
            for i in rest[1:-1]:
                shares[i] = 0
            approximate(dims, shares, rec)
