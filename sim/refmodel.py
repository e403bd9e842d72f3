"""Reference model: a small, sequential, stateless numpy implementation of what
every horqrux call is supposed to return.  It shares no code with horqrux; it is
written from the documentation (gate definitions, noise channels, observables).

Qubit 0 is the most significant bit of a basis index; the first listed target of
a multi-qubit gate is the most significant bit of its matrix.
"""
from __future__ import annotations

import cmath
import math

import numpy as np

SQ2 = 1.0 / math.sqrt(2.0)
MATS = {
    "I": [[1, 0], [0, 1]],
    "X": [[0, 1], [1, 0]],
    "Y": [[0, -1j], [1j, 0]],
    "Z": [[1, 0], [0, -1]],
    "H": [[SQ2, SQ2], [SQ2, -SQ2]],
    "S": [[1, 0], [0, 1j]],
    "T": [[1, 0], [0, cmath.exp(1j * math.pi / 4)]],
    "SWAP": [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
    "SQRTSWAP": [
        [1, 0, 0, 0],
        [0, 0.5 + 0.5j, 0.5 - 0.5j, 0],
        [0, 0.5 - 0.5j, 0.5 + 0.5j, 0],
        [0, 0, 0, 1],
    ],
    "ISWAP": [[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]],
    "ISQRTSWAP": [[1, 0, 0, 0], [0, SQ2, 1j * SQ2, 0], [0, 1j * SQ2, SQ2, 0], [0, 0, 0, 1]],
}
MATS = {k: np.array(v, dtype=complex) for k, v in MATS.items()}
PARAMETRIC = ("RX", "RY", "RZ", "PHASE")


class Missing(KeyError):
    """A value the call needs is not given."""


def value(p, values):
    if isinstance(p, str):
        if p not in values:
            raise Missing(p)
        return float(values[p])
    return float(p)


def angle_of(g, values):
    return value(g["p"], values) + g.get("sh", 0.0)


def gate_matrix(g, values):
    k = g["k"]
    if k in ("RX", "RY", "RZ"):
        th = angle_of(g, values)
        return math.cos(th / 2) * MATS["I"] - 1j * math.sin(th / 2) * MATS[k[1]]
    if k == "PHASE":
        return np.array([[1, 0], [0, cmath.exp(1j * angle_of(g, values))]], dtype=complex)
    if k == "HAM":
        h = herm_from(g["h"], len(g["t"]))
        w, v = np.linalg.eigh(h)
        return (v * np.exp(-1j * w * angle_of(g, values))) @ v.conj().T
    return MATS[k]


def herm_from(seed, nq):
    r = np.random.RandomState(seed)
    m = r.randn(2**nq, 2**nq) + 1j * r.randn(2**nq, 2**nq)
    return (m + m.conj().T) / 2


def _index_blocks(n, targets, controls):
    idx = np.arange(2**n)
    keep = np.ones(2**n, dtype=bool)
    for t in targets:
        keep &= (idx >> (n - 1 - t)) & 1 == 0
    for c in controls:
        keep &= (idx >> (n - 1 - c)) & 1 == 1
    base = idx[keep]
    k = len(targets)
    rows = []
    for j in range(2**k):
        off = 0
        for pos, t in enumerate(targets):
            if (j >> (k - 1 - pos)) & 1:
                off |= 1 << (n - 1 - t)
        rows.append(base | off)
    return np.array(rows)


def apply_left(u, m, n, targets, controls=()):
    """u (on targets, conditioned on controls) @ m for m of shape (2**n, anything)."""
    blocks = _index_blocks(n, targets, controls)
    out = m.copy()
    flat = m[blocks]  # (2**k, nblocks, cols)
    out[blocks] = np.tensordot(u, flat, axes=(1, 0))
    return out


def apply_both(u, rho, n, targets, controls=()):
    a = apply_left(u, rho, n, targets, controls)
    return apply_left(u, a.conj().T, n, targets, controls).conj().T


def kraus(kind, p):
    I, X, Y, Z = (MATS[c] for c in "IXYZ")
    s = math.sqrt
    if kind == "BitFlip":
        return [s(1 - p) * I, s(p) * X]
    if kind == "PhaseFlip":
        return [s(1 - p) * I, s(p) * Z]
    if kind == "Depolarizing":
        return [s(1 - p) * I, s(p / 3) * X, s(p / 3) * Y, s(p / 3) * Z]
    if kind == "PauliChannel":
        return [s(1 - sum(p)) * I, s(p[0]) * X, s(p[1]) * Y, s(p[2]) * Z]
    if kind == "AmplitudeDamping":
        return [np.array([[1, 0], [0, s(1 - p)]]), np.array([[0, s(p)], [0, 0]])]
    if kind == "PhaseDamping":
        return [np.array([[1, 0], [0, s(1 - p)]]), np.array([[0, 0], [0, s(p)]])]
    if kind == "GeneralizedAmplitudeDamping":
        q, r = p
        return [
            s(q) * np.array([[1, 0], [0, s(1 - r)]]),
            s(q) * np.array([[0, s(r)], [0, 0]]),
            s(1 - q) * np.array([[s(1 - r), 0], [0, 1]]),
            s(1 - q) * np.array([[0, 0], [s(r), 0]]),
        ]
    raise ValueError(kind)


def flat_gates(gates):
    out = []
    for g in gates:
        if "seq" in g:
            out += flat_gates(g["seq"])
        else:
            out.append(g)
    return out


def has_noise(gates):
    return any(g.get("noise") for g in flat_gates(gates))


# ---------------------------------------------------------------- states
def state_array(s, n):
    """(array, is_dm) of a state spec: a vector of 2**n or a 2**n x 2**n matrix."""
    kind = s["kind"]
    d = 2**n
    if kind == "product":
        v = np.zeros(d, dtype=complex)
        v[int(s["bits"], 2)] = 1
    elif kind == "uniform":
        v = np.full(d, 1 / math.sqrt(d), dtype=complex)
    elif kind == "vec":
        r = np.random.RandomState(s["seed"])
        v = r.randn(d) + 1j * r.randn(d)
        v /= np.linalg.norm(v)
    elif kind == "mixed":
        r = np.random.RandomState(s["seed"])
        m = r.randn(d, s.get("rank", 2)) + 1j * r.randn(d, s.get("rank", 2))
        rho = m @ m.conj().T
        return rho / np.trace(rho).real, True
    else:
        raise ValueError(kind)
    if s.get("dm"):
        return np.outer(v, v.conj()), True
    return v, False


def evolve(arr, is_dm, n, gates, values, dagger=False):
    gates = flat_gates(gates)
    if not is_dm and has_noise(gates):
        arr, is_dm = np.outer(arr, arr.conj()), True
    for g in gates:
        u = gate_matrix(g, values)
        if dagger:
            u = u.conj().T
        c = g.get("c") or ()
        if is_dm:
            arr = apply_both(u, arr, n, g["t"], c)
            for kind, p in g.get("noise") or ():
                arr = sum(apply_both(np.asarray(k), arr, n, g["t"]) for k in kraus(kind, p))
        else:
            arr = apply_left(u, arr[:, None], n, g["t"], c)[:, 0]
    return arr, is_dm


# ---------------------------------------------------------------- observables
def obs_apply(node, m, n, values):
    """O @ m for an observable spec node and m of shape (2**n, cols)."""
    o = node["o"]
    if o == "prim":
        g = node["g"]
        return apply_left(gate_matrix(g, values), m, n, g["t"], g.get("c") or ())
    if o == "seq":
        for x in node["x"]:
            m = obs_apply(x, m, n, values)
        return m
    if o == "scale":
        return value(node["p"], values) * obs_apply(node["x"], m, n, values)
    if o == "add":
        return sum(obs_apply(x, m, n, values) for x in node["x"])
    raise ValueError(o)


def obs_matrix(node, n, values):
    return obs_apply(node, np.eye(2**n, dtype=complex), n, values)


def expect(arr, is_dm, n, node, values):
    if is_dm:
        return float(np.trace(obs_apply(node, arr, n, values)).real)
    return float(np.vdot(arr, obs_apply(node, arr[:, None], n, values)[:, 0]).real)


def expectations(state, n, gates, obs, values, values_obs=None):
    arr, dm = state_array(state, n)
    arr, dm = evolve(arr, dm, n, gates, values)
    return np.array([expect(arr, dm, n, o, values if values_obs is None else values_obs) for o in obs])


def probs(arr, is_dm):
    return arr.diagonal().real.copy() if is_dm else np.abs(arr) ** 2


def eig(node, n, values):
    w, v = np.linalg.eigh(obs_matrix(node, n, values))
    return w, v


# ---------------------------------------------------------------- derivatives
_W1 = ((1, 45 / 60), (2, -9 / 60), (3, 1 / 60))
H1 = 0.008


def derivative(f, values, name):
    """6th order central difference of f(values) in values[name]."""
    out = 0.0
    for k, w in _W1:
        up, dn = dict(values), dict(values)
        up[name] = values[name] + k * H1
        dn[name] = values[name] - k * H1
        out = out + w * (f(up) - f(dn))
    return out / H1


def gradient(f, values, names=None):
    return {k: derivative(f, values, k) for k in (names if names is not None else values)}


def hessian(f, values, a, b):
    return derivative(lambda v: derivative(f, v, b), values, a)
