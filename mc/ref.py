"""Independent reference semantics of qudit circuits (plain numpy, written from the documented definitions).

Line 0 is the most significant digit.  Nothing in here imports mqt.qudits.
"""
from __future__ import annotations

import cmath
import itertools
import math
from functools import reduce

import numpy as np

PI = math.pi


# ---------------------------------------------------------------- gate matrices
def r(d, a, b, theta, phi):
    a, b = min(a, b), max(a, b)
    m = np.eye(d, dtype=complex)
    c, s = math.cos(theta / 2), math.sin(theta / 2)
    m[a, a] = m[b, b] = c
    m[a, b] = -1j * s * cmath.exp(-1j * phi)
    m[b, a] = -1j * s * cmath.exp(1j * phi)
    return m


def rz(d, a, b, phi):
    """Z rotation on a level pair: exp(-i phi/2) on the lower level, exp(+i phi/2) on the upper one."""
    a, b = min(a, b), max(a, b)
    m = np.eye(d, dtype=complex)
    m[a, a], m[b, b] = cmath.exp(-0.5j * phi), cmath.exp(0.5j * phi)
    return m


def virtrz(d, lev, phi):
    m = np.eye(d, dtype=complex)
    m[lev, lev] = cmath.exp(-1j * phi)
    return m


def h(d):
    w = cmath.exp(2j * PI / d)
    return np.array([[w ** ((i * j) % d) for j in range(d)] for i in range(d)]) / math.sqrt(d)


def x(d):
    m = np.zeros((d, d), dtype=complex)
    for i in range(d):
        m[(i + 1) % d, i] = 1
    return m


def z(d):
    return np.diag([cmath.exp(2j * PI * i / d) for i in range(d)])


def s(d):
    if d == 2:
        return np.diag([1, 1j]).astype(complex)
    return np.diag([cmath.exp(2j * PI / d * ((i * (i + 1) // 2) % d)) for i in range(d)])


def perm(p):
    d = len(p)
    m = np.zeros((d, d), dtype=complex)
    for col, row in enumerate(p):
        m[row, col] = 1
    return m


def csum(d0, d1):
    """|i, j> -> |i, (j + i) mod d1>  (first qudit of the operation controls)."""
    m = np.zeros((d0 * d1, d0 * d1), dtype=complex)
    for i in range(d0):
        for j in range(d1):
            m[i * d1 + (j + i) % d1, i * d1 + j] = 1
    return m


def expmh(hm, theta):
    """exp(-i theta hm) for hermitian hm by eigen-decomposition."""
    w, v = np.linalg.eigh(hm)
    return v @ np.diag(np.exp(-1j * theta * w)) @ v.conj().T


def kron(*ms):
    return reduce(np.kron, ms)


# ---------------------------------------------------------------- embedding
def digits(k, dims):
    out = []
    for d in reversed(dims):
        out.append(k % d)
        k //= d
    return tuple(reversed(out))


def index(dig, dims):
    k = 0
    for v, d in zip(dig, dims):
        k = k * d + v
    return k


def embed(m, targets, dims, controls=None):
    """Full-register matrix of `m` acting on `targets` (m's digit order = order of `targets`), applied
    exactly when every (line, level) of `controls` matches."""
    dims = list(dims)
    n = int(np.prod(dims))
    tdims = [dims[t] for t in targets]
    out = np.zeros((n, n), dtype=complex)
    for col, dig in enumerate(itertools.product(*map(range, dims))):
        if controls and any(dig[q] != lv for q, lv in controls):
            out[col, col] = 1
            continue
        tc = index([dig[t] for t in targets], tdims)
        for tr in np.nonzero(m[:, tc])[0]:
            nd = list(dig)
            for t, v in zip(targets, digits(int(tr), tdims)):
                nd[t] = v
            out[index(nd, dims), col] += m[tr, tc]
    return out


def same(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, atol=tol, rtol=0))


def same_up_to_phase(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    k = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[k]) < 1e-12:
        return False
    ph = b[k] / a[k]
    return abs(abs(ph) - 1) < 10 * tol and bool(np.allclose(a * ph, b, atol=tol, rtol=0))


def canon(a, nd=6):
    """Hashable canonical form of an array (rounded; -0 removed)."""
    a = np.round(np.asarray(a, dtype=complex), nd) + 0.0
    return (a.shape, (a.real + 0.0).tobytes(), (a.imag + 0.0).tobytes())
