"""Seeded generation of run specifications (plain JSON data)."""
from __future__ import annotations

import copy
import math
import random

ONE = ["I", "X", "Y", "Z", "H", "S", "T"]
TWO = ["SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP"]
ROT = ["RX", "RY", "RZ", "PHASE"]
NOISE1 = ["BitFlip", "PhaseFlip", "Depolarizing", "AmplitudeDamping", "PhaseDamping"]
NAMES = ["a", "b", "theta", "v_1", "v_10", "x", "phi0", "time"]


def pick_names(r):
    if r.random() < 0.7:
        return r.sample(NAMES, r.choice([1, 2, 2, 3, 4]))
    if r.random() < 0.2:  # many, so that their order as text is not their order as numbers
        out = [f"p{k}" for k in range(r.choice([9, 12, 14]))]
        r.shuffle(out)
        return out
    # names that contain each other, as generated names do
    b = r.choice(["w", "x", "theta", "circuit"])
    return [b] + r.sample([b + "_0", b + "_1", b + "_2", b + "0", b + "1", b + "_", "_" + b, b + b, b + "_1_0"], r.choice([1, 2, 3]))


def rng_of(seed, *salt) -> random.Random:
    return random.Random(":".join(str(s) for s in (seed,) + salt))


def pick_n(r, hi=5):
    return min(hi, r.choices([1, 2, 3, 4, 5, 6], [1, 4, 5, 3, 1.2, 0.5])[0])


def wide(r, i, n, every=20):
    """Some runs use registers of a size the others do not have."""
    return r.choice([5, 6, 7]) if i % every == 11 else n


def angle(r):
    if r.random() < 0.12:
        return r.choice([0.0, math.pi, -math.pi, 2 * math.pi, math.pi / 2, 1.0, 12.5, -7.25, 20.0, 1e-3, -1e-5, 4 * math.pi])
    if r.random() < 0.06:
        return round(r.uniform(-40, 40), 6)
    return round(r.uniform(-4, 4), 6)


def prob(r):
    k = r.random()
    if k < 0.12:
        return r.choice([0.0, 1.0])
    if k < 0.24:  # next to nothing, or nearly certain
        p = float(f"{10 ** r.uniform(-6, -2):.4g}")
        return p if r.random() < 0.7 else 1 - p
    return round(r.uniform(0.01, 0.6), 4)


def noise(r):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.7:
            out.append([r.choice(NOISE1), prob(r)])
        elif k < 0.85:
            out.append(["PauliChannel", [round(r.uniform(0, 0.33), 4) if r.random() < 0.85 else prob(r) / 3 for _ in range(3)]])
        else:
            out.append(["GeneralizedAmplitudeDamping", [prob(r), prob(r)]])
    return out


class Style:
    """Swarm: what this run uses at all."""

    def __init__(self, r, n, **kw):
        self.n = n
        self.one = r.sample(ONE, r.randint(2, 6))
        self.two = r.sample(TWO, r.randint(0, 3)) if n > 1 else []
        self.rot = r.sample(ROT, r.randint(1, 4))
        self.p_rot = r.choice([0.3, 0.5, 0.7])
        self.p_two = r.choice([0, 0.1, 0.25]) if self.two else 0
        self.p_ctrl = r.choice([0, 0.2, 0.45]) if n > 1 else 0
        self.p_noise = r.choice([0, 0, 0.15, 0.5])
        self.p_fixed = r.choice([0, 0.2, 0.5])
        self.names = pick_names(r)
        self.p_shift = r.choice([0, 0, 0.25])
        self.ctrl_rot = True  # rotations with a named parameter may be controlled
        self.p_seq = r.choice([0, 0, 0.15])
        self.max_gates = r.choice([3, 5, 8, 12])
        self.local = r.random() < 0.3  # several gates in a row on the same qubit
        for k, v in kw.items():
            setattr(self, k, v)


def gate(r, st: Style):
    n = st.n
    qs = list(range(n))
    if st.p_two and r.random() < st.p_two:
        t = r.sample(qs, 2)
        g = {"k": r.choice(st.two), "t": t}
    elif r.random() < st.p_rot:
        t = r.sample(qs, 1)
        g = {"k": r.choice(st.rot), "t": t}
        g["p"] = angle(r) if r.random() < st.p_fixed else r.choice(st.names)
        if st.p_shift and r.random() < st.p_shift:
            g["sh"] = angle(r)
    else:
        t = r.sample(qs, 1)
        g = {"k": r.choice(st.one), "t": t}
    rest = [q for q in qs if q not in t]
    if rest and r.random() < st.p_ctrl:
        if not (g["k"] in ("RX", "RY", "RZ") and isinstance(g.get("p"), str) and not st.ctrl_rot):
            g["c"] = r.sample(rest, r.choice([1, 1, 1, min(2, len(rest)), min(3, len(rest)), len(rest) if n < 7 and r.random() < 0.2 else 1]))
    if st.p_noise and len(t) == 1 and r.random() < st.p_noise:
        g["noise"] = noise(r)
    if r.random() < 0.1:
        g["tup"] = True
    elif r.random() < 0.04:
        g["npi"] = True
    return g


def gates(r, st, lo=1, hi=None):
    out = []
    last = None
    for _ in range(r.randint(lo, max(lo, hi or st.max_gates))):
        if r.random() < st.p_seq:
            out.append({"seq": [gate(r, st) for _ in range(r.randint(1, 3))]})
            continue
        g = gate(r, st)
        if st.local and last is not None and len(g["t"]) == 1 and r.random() < 0.6:
            g["t"] = list(last["t"]) if len(last["t"]) == 1 else g["t"]
            g["c"] = list(last.get("c") or [])
            if g["t"][0] in g["c"] or (g["c"] and not st.ctrl_rot and isinstance(g.get("p"), str)):
                g["c"] = []
        out.append(g)
        last = g
    return out


def add_ham(r, n, circs, most=3):
    """Hamiltonian evolutions, all reading the same two values."""
    c = r.choice(circs)
    k = r.choice([1, 2, 2]) if n > 1 else 1
    h = r.randrange(10**6)
    pos = r.randint(0, len(c["gates"]))
    first = None
    for _ in range(r.randint(1, most)):
        g = {"k": "HAM", "t": r.sample(range(n), k), "h": h, "p": "time_evolution"}
        if first and r.random() < 0.5:
            g["t"] = r.sample(first["t"], k)  # the same qubits, maybe in another order
            if first.get("c"):
                g["c"] = list(first["c"])
        else:
            rest = [q for q in range(n) if q not in g["t"]]
            if rest and r.random() < 0.3:
                g["c"] = r.sample(rest, 1)
        first = g
        c["gates"].insert(pos, g)
        if r.random() < 0.4:
            pos = r.randint(0, len(c["gates"]))
    if c["kind"] == "prim":
        c["kind"] = "seq"
    return c


def has_ham(c):
    from .refmodel import flat_gates

    return any(g["k"] == "HAM" for g in flat_gates(c["gates"]))


def nudged(r, x):
    """A number that is almost the same."""
    d = r.choice([-1, 1]) * 10 ** r.uniform(-6.5, -1.5)
    y = x * (1 + d) if x else abs(d)
    return y if abs(y - x) > 1e-7 else x + 1e-6


def nudge(r, g):
    """Change one number of a gate a little."""
    ch = [k for k in ("p", "sh") if isinstance(g.get(k), float)]
    if g.get("noise"):
        ch.append("noise")
    if not ch:
        return False
    k = r.choice(ch)
    if k != "noise":
        g[k] = nudged(r, g[k])
        return True
    ns = r.choice(g["noise"])
    if isinstance(ns[1], list):
        j = r.randrange(len(ns[1]))
        v = ns[1][j]
        ns[1][j] = abs(v - 10 ** r.uniform(-6, -2.5))
    else:
        ns[1] = abs(ns[1] - 10 ** r.uniform(-6, -2))
    return True


def nudge_obs(r, o):
    """The same observable with a slightly different factor, or None."""
    o = copy.deepcopy(o)
    todo, found = [o], []
    while todo:
        x = todo.pop()
        if x["o"] == "scale":
            if not isinstance(x["p"], str):
                found.append(x)
            todo.append(x["x"])
        elif x["o"] != "prim":
            todo += x["x"]
    if not found:
        return None
    x = r.choice(found)
    x["p"] = nudged(r, x["p"])
    return o


def variant(r, c, n):
    """The same circuit with one static detail changed."""
    from .refmodel import flat_gates

    c = copy.deepcopy(c)
    if len(c["gates"]) > 1 and r.random() < 0.12:
        return reordered(r, c)
    gs = flat_gates(c["gates"])
    for _ in range(20 if gs else 0):
        g = r.choice(gs)
        if r.random() < 0.4:
            if nudge(r, g):
                return c
            continue
        if len(g["t"]) == 2 and r.random() < 0.3:
            g["t"] = g["t"][::-1]
            return c
        if g.get("noise") and len(g["noise"]) > 1 and r.random() < 0.3:
            g["noise"] = g["noise"][::-1]
            return c
        k = r.random()
        if k < 0.25 and isinstance(g.get("p"), float):
            g["p"] = angle(r)
        elif k < 0.5 and len(g["t"]) == 1:
            free = [q for q in range(n) if q not in (g.get("c") or []) and q not in g["t"]]
            if not free:
                continue
            g["t"] = [r.choice(free)]
        elif k < 0.65 and g.get("noise"):
            g["noise"] = noise(r)
        elif k < 0.8 and g["k"] in ROT and not g.get("c"):
            g["k"] = r.choice([x for x in ROT if x != g["k"]])
        elif k < 0.9 and g["k"] in ONE:
            g["k"] = r.choice([x for x in ONE if x != g["k"]])
        elif g.get("c"):
            free = [q for q in range(n) if q not in g["c"] and q not in g["t"]]
            if not free:
                continue
            g["c"] = [r.choice(free)]
        else:
            continue
        return c
    return c


def reordered(r, c):
    """The same gates, one of them earlier or later (the names in the same order, where possible)."""
    c = copy.deepcopy(c)
    gs = c["gates"]
    pairs = [j for j in range(len(gs) - 1) if gs[j] != gs[j + 1]]
    free = [j for j in pairs if not (names_of_gates([gs[j]]) and names_of_gates([gs[j + 1]]))]
    named = [j for j in free if names_of_gates(gs[j : j + 2])]
    if pairs:
        j = r.choice(named or free or pairs)
        gs[j], gs[j + 1] = gs[j + 1], gs[j]
    return c


def variants(r, circs, n, p=0.3):
    """Sometimes a circuit has a twin that differs in one detail."""
    for c in list(circs):
        if c["gates"] and r.random() < p:
            circs.append(variant(r, c, n))


def variants_obs(r, obs, p=0.3):
    for o in list(obs):
        if r.random() < p:
            o2 = nudge_obs(r, o)
            if o2:
                obs.append(o2)


def names_of_gates(gs):
    out = []
    for g in gs:
        if "seq" in g:
            out += names_of_gates(g["seq"])
        elif isinstance(g.get("p"), str):
            out.append(g["p"])
    return list(dict.fromkeys(out))


def circuit(r, st, kinds=("qc", "seq", "list"), lo=1, hi=None, empty=0.03):
    kind = r.choice(kinds)
    gs = gates(r, st, lo, hi)
    if kind != "prim" and r.random() < empty:
        gs = []  # an ansatz without layers
    if kind == "prim":
        gs = gs[:1]
        if "seq" in gs[0]:
            gs = gs[0]["seq"][:1]
    if kind == "list":
        from .refmodel import flat_gates

        gs = flat_gates(gs)
    c = {"kind": kind, "gates": gs}
    if kind == "qc":
        ns = names_of_gates(gs)
        c["fparams"] = r.sample(ns, r.randint(0, len(ns))) if ns and r.random() < 0.5 else []
    return c


def state(r, n, dm=0.3):
    k = r.random()
    if k < 0.25:
        s = {"kind": "product", "bits": "".join(r.choice("01") for _ in range(n))}
    elif k < 0.35:
        s = {"kind": "uniform"}
    if k < 0.35:
        if r.random() < 0.2:  # an array of the caller without imaginary part
            s.update(raw=True, real=True)
    else:
        s = {"kind": "vec", "seed": r.randrange(10**6)}
    if r.random() < dm:
        if r.random() < 0.5:
            return {"kind": "mixed", "seed": r.randrange(10**6), "rank": r.choice([1, 2, 4])}
        s["dm"] = True
    return s


def prim_obs(r, n, hermitian=True, ctrl=0.1, names=()):
    pool = ["X", "Y", "Z", "H", "I"] if hermitian else ["X", "Y", "Z", "H", "S", "T", "I"]
    if n > 1 and r.random() < 0.08:
        return {"o": "prim", "g": {"k": "SWAP", "t": r.sample(range(n), 2)}}
    t = r.randrange(n)
    g = {"k": r.choice(pool), "t": [t]}
    if not hermitian and r.random() < 0.15:
        g["k"] = r.choice(ROT)
        g["p"] = r.choice(list(names)) if names and r.random() < 0.6 else angle(r)
    rest = [q for q in range(n) if q != t]
    if rest and r.random() < ctrl:
        g["c"] = r.sample(rest, r.choice([1, min(2, len(rest))]))
    return {"o": "prim", "g": g}


def node(r, n, names=(), depth=2, hermitian=True, full=None):
    k = r.random()
    if depth == 0 or k < 0.4:
        return prim_obs(r, n, hermitian, names=names)
    if k < 0.65:
        p = r.choice(list(names)) if names and r.random() < 0.5 else round(r.uniform(-2, 2), 4)
        return {"o": "scale", "p": p, "x": node(r, n, names, depth - 1, hermitian)}
    if k < 0.85:
        return {"o": "add", "x": [node(r, n, names, depth - 1, hermitian) for _ in range(r.choice([1, 2, 2, 3]))]}
    if hermitian:
        # commuting factors: distinct qubits
        qs = r.sample(range(n), min(n, r.choice([1, 2, 2, 3])))
        return {"o": "seq", "x": [{"o": "prim", "g": {"k": r.choice("XYZH"), "t": [q]}} for q in qs]}
    return {"o": "seq", "x": [node(r, n, names, depth - 1, hermitian) for _ in range(r.choice([1, 2, 2, 3]))]}


def observable(r, n, names=(), hermitian=True):
    if r.random() < 0.05:
        return {"o": "add", "x": [node(r, n, names, r.choice([0, 0, 1]), hermitian) for _ in range(r.choice([5, 7, 9]))]}
    return {"o": "add", "x": [node(r, n, names, r.choice([0, 1, 2, 2]), hermitian) for _ in range(r.choice([1, 1, 2, 3]))]}


def ints(r, v, p=0.08):
    """Whole numbers instead of floats."""
    if v and r.random() < p:
        v[r.choice(list(v))] = r.choice([0, 1, 2, -1, 3])
    return v


def names_of_obs(o):
    out = []
    if o["o"] == "prim":
        if isinstance(o["g"].get("p"), str):
            out.append(o["g"]["p"])
        return out
    if o["o"] == "scale":
        if isinstance(o["p"], str):
            out.append(o["p"])
        out += names_of_obs(o["x"])
    else:
        for x in o["x"]:
            out += names_of_obs(x)
    return list(dict.fromkeys(out))


def values_for(r, names, extra=0.15):
    v = {k: angle(r) for k in names}
    if r.random() < extra:
        v[r.choice(["unused", "zz", "aa", "Unused_1"])] = angle(r)
    items = list(v.items())
    r.shuffle(items)
    return dict(items)


def revalue(r, v, ops, p=0.35):
    """Sometimes the values of the call before, one of them slightly different."""
    if not ops or not v or r.random() > p:
        return v
    old = ops[-1].get("v") or {}
    v = {k: old.get(k, x) for k, x in v.items()}
    if r.random() < 0.8:
        k = r.choice(list(v))
        v[k] = nudged(r, v[k]) if r.random() < 0.5 else angle(r)
    return v


def log_uniform(r, hi):
    return max(1, int(math.exp(r.uniform(0, math.log(hi)))))


def schedule(r, op, n_clients, length, density=0.6):
    """Where this operation is preempted, and who runs next."""
    if n_clients > 1:
        if r.random() < density:
            op["pre"] = sorted(
                [log_uniform(r, length) if r.random() < 0.6 else r.randint(1, length), r.randrange(n_clients)]
                for _ in range(r.choice([1, 1, 2, 3, 5]))
            )
        if r.random() < 0.4:  # where the code touches data that outlives the call
            op["hot"] = [[log_uniform(r, 8), "pre", r.randrange(n_clients)] for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.5:
            op["next"] = r.randrange(n_clients)
    return op


FAULTS = ("interrupt", "oom", "oom_xla")
NUISANCE = ("clear_caches", "gc", "reseed", "clock")


def faults(r, op, length, p=0.2, kinds=FAULTS, p_nuisance=0.05):
    fs = []
    if r.random() < p:
        k = r.choice(kinds)
        hi = length if k == "interrupt" else max(4, length // 8)
        fs.append([k, log_uniform(r, hi) if r.random() < 0.5 else r.randint(1, hi)])
        if k == "interrupt" and r.random() < 0.4:
            op.setdefault("hot", []).append([log_uniform(r, 8), "interrupt", None])
    if r.random() < p_nuisance:
        k = r.choices(NUISANCE, [1, 3, 3, 3])[0]
        fs.append([k, r.randint(1, length), r.choice([-86400, 3600, 1e8]) if k == "clock" else r.choice([0, 7, r.randrange(10**6)])])
    if fs:
        op["faults"] = fs
    return op


def env(r):
    return {
        "uuid": r.choice(["rand", "asc", "desc", "tail", "head"]),
        "uuid_seed": r.randrange(10**9),
        "clock": r.choice([0.0, 1.0, 1.7e9, 4.2e9]),
        "share": r.random() < 0.25,
        "tick": r.choice([0, 0, 1 / 64, 60.0]),
        "first": r.randrange(4),
    }


LENGTH = {"run": 500, "exp": 900, "grad": 4000, "sample": 500, "shots": 1200, "shotgrad": 4000, "jit": 1500, "hea": 80}
