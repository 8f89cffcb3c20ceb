"""C18: preparing a state gives exactly that state."""
from __future__ import annotations

import itertools

import numpy as np

from mc import gates as G
from mc import ref
from mc.core import require

PROPERTY = "C18"
RULE = ("every state vector with entries from an alphabet of amplitudes (zeros, equal and different magnitudes and phases; normalised) on "
        "each register: the circuit from set_initial_state run from the ground state compared with the vector up to global phase; the caller's "
        "vector and register unchanged, preparing twice, gates appended afterwards, vectors of the wrong length refused")
BOUNDS = {"quick": "[2],[3],[4],[2,2]: 6 amplitudes; [3,2],[2,3]: 4; [2,2,2]: 3; [3,3]: 2 (all) ; [2,3,2],[3,2,2]: 2 on half of the vectors; a second alphabet with weights 1, 0.1, 0.004 on [2],[3],[4],[2,2],[3,2],[2,3],[2,2,2],[3,3]", "thorough": "[3,2],[2,3]: 5; [2,2,2]: 4; [3,3]: 3; [2,3,2], [3,2,2], [2,2,3]: 2; [4,3]: 2"}
TOL = 1e-4
AMPS = [0.0, 1.0, 1j, -0.6, 0.3 - 0.8j, 2.5]
STEEP = [1.0, 0.1j, 0.004, 0.0, -1.0]  # branches of very different weight


def cases(tier, seed):
    deep = tier == "thorough"
    plan = [([2], 6), ([3], 6), ([4], 6), ([2, 2], 6), ([3, 2], 5 if deep else 4), ([2, 3], 5 if deep else 4), ([2, 2, 2], 4 if deep else 3), ([3, 3], 3 if deep else 2),
            ([2, 3, 2], 2), ([3, 2, 2], 2)]
    if deep:
        plan += [([2, 2, 3], 2), ([4, 3], 2)]
    for dims, k in plan:
        n = int(np.prod(dims))
        head = max(0, n - 5)
        for i, pre in enumerate(itertools.product(range(k), repeat=head)):
            if deep or n < 12 or i % 2 == seed % 2:
                yield {"kind": "all", "dims": dims, "k": k, "pre": list(pre)}
    for dims, k in [([2], 5), ([3], 5), ([2, 2], 5), ([4], 4), ([3, 2], 4 if deep else 3), ([2, 3], 4 if deep else 3), ([2, 2, 2], 3 if deep else 2), ([3, 3], 2)]:
        n = int(np.prod(dims))
        for pre in itertools.product(range(k), repeat=max(0, n - 5)):
            yield {"kind": "all", "dims": dims, "k": k, "pre": list(pre), "steep": True}
    yield {"kind": "length"}
    yield {"kind": "smooth"}


def run(circ, dims, start=None):
    v = np.zeros(int(np.prod(dims)), dtype=complex)
    v[0] = 1
    for g in circ.instructions:
        v = g.to_matrix(identities=2) @ v
    return v


def prepare(dims, vec, rec, key, approx=False):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    circ = QuantumCircuit(len(dims), list(dims), 0)
    given = np.array(vec, dtype=complex)
    kept = given.copy()
    out = circ.set_initial_state(given, approx)
    require(np.array_equal(given, kept), "the caller's vector was modified", key)
    require(circ.dimensions == dims and out.dimensions == dims and out.number_gates == len(out.instructions), "register or bookkeeping changed", key)
    got = run(out, dims)
    require(abs(np.linalg.norm(got) - 1) < 1e-6, "prepared state not normalised", key)
    rec.step(len(out.instructions))
    rec.trace()
    return out, got


def fidelity(a, b):
    return abs(np.vdot(a, b)) ** 2


def exact(dims, vec, rec):
    key = f"{dims} {[complex(round(x.real, 4), round(x.imag, 4)) for x in vec]}"
    out, got = prepare(dims, vec, rec, key)
    require(fidelity(got, vec) > 1 - TOL ** 1.5, lambda: f"prepared {np.round(got, 4).tolist()} (fidelity {fidelity(got, vec):.6f})", key)
    # relative phases and magnitudes entry by entry
    ph = np.vdot(vec, got)
    require(np.abs(got - vec * ph / abs(ph)).max() < TOL * 10, "an amplitude is off", key)
    return out


def check(case, rec):
    if case["kind"] == "length":
        return lengths(rec)
    if case["kind"] == "smooth":
        return smooth(rec)
    dims, k = case["dims"], case["k"]
    n = int(np.prod(dims))
    alphabet = STEEP if case.get("steep") else AMPS
    for rest in itertools.product(range(k), repeat=n - len(case["pre"])):
        vec = np.array([alphabet[i] for i in (*case["pre"], *rest)], dtype=complex)
        if not np.any(vec):
            continue
        vec = vec / np.linalg.norm(vec)
        exact(dims, vec, rec)
        rec.state((tuple(dims), bool(case.get("steep")), *case["pre"], *rest))


def smooth(rec):
    """Generic amplitudes, the state continued by gates, a second preparation on the same circuit object's register."""
    from mqt.qudits.quantum_circuit import QuantumCircuit

    for dims in ([2], [5], [2, 3], [3, 2], [4, 4], [2, 3, 2], [3, 3, 3], [2, 2, 2, 2], [6, 2]):
        n = int(np.prod(dims))
        for kind in range(6):
            t = np.arange(n)
            vec = [np.exp(0.7j * t * t) * (1 + np.sin(t + kind)), np.cos(t + kind) + 0j, np.exp(1j * t), 1.0 / (1 + t) * (-1.0) ** t, np.where(t % 3 == kind % 3, 1j ** t, 0),
                   np.where(t % 2 == 1, np.exp(0.4j * t), 0)][kind]
            vec = np.array(vec, dtype=complex)
            if not np.any(vec):
                continue
            vec /= np.linalg.norm(vec)
            exact(dims, vec, rec)
            circ = QuantumCircuit(len(dims), list(dims), 0)
            circ.set_initial_state(vec)
            specs = [["h", [0], None, None, False]] + ([["csum", [0, len(dims) - 1], None, None, False]] if len(dims) > 1 else [])
            for s in specs:
                G.put(circ, s)
            want = vec
            for s in specs:
                want = G.ref_full(s, dims) @ want
            got = run(circ, dims)
            require(fidelity(got, want) > 1 - 1e-6, "gates after the preparation act wrongly", f"{dims} smooth {kind}")
            state = np.asarray(circ.simulate()).reshape(-1)
            require(fidelity(state, want) > 1 - 1e-6, "simulating the prepared circuit gives another state", f"{dims} smooth {kind}")
            rec.state((tuple(dims), kind))


def lengths(rec):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    for dims in ([2], [3], [2, 2], [3, 2], [2, 3, 2]):
        n = int(np.prod(dims))
        for m in range(1, 2 * n + 2):
            if m == n:
                continue
            for vec in (np.ones(m) / np.sqrt(m), np.eye(m)[m - 1], np.eye(m)[0]):
                circ = QuantumCircuit(len(dims), list(dims), 0)
                try:
                    circ.set_initial_state(vec.astype(complex))
                except Exception:  # noqa: BLE001
                    rec.count("refused")
                    continue
                require(False, f"a vector of {m} entries accepted for {n} basis states", f"{dims} length {m}")
            rec.trace()
