"""One class per claimed property: how its runs are generated and judged."""
from __future__ import annotations

import copy
import json
import math

import numpy as np

from . import engine, gen as G, refmodel as R
from .world import World, Violation, close

PROPS: dict = {}


def prop(cls):
    PROPS[cls.id] = cls
    return cls


class Prop:
    id = ""
    quick = 160  # runs
    thorough = 4000
    world = World
    guests = 0.0  # share of runs with clients that use other register sizes

    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier

    def full(self, i):
        """The specification of run i."""
        spec = self.spec(i)
        r = G.rng_of(self.seed, self.id, i, "guests")
        if r.random() >= self.guests or spec.get("flavour") in ("big", "long", "soak"):
            return spec
        for k in range(1, 40):
            g = self.spec(i + 1_000_003 * k)
            if g["n"] != spec["n"] and g["n"] <= 6 and g.get("flavour") not in ("big", "long", "soak", "sparse"):
                break
        else:
            return spec
        mine = spec["clients"]
        theirs = [ops[:4] for ops in g.pop("clients")[: r.choice([1, 1, 2])]]
        g.pop("env", None)
        for ops in theirs:
            for op in ops:
                op["guest"] = True
        spec["guest"] = dict(g, share=bool(spec.get("env", {}).get("share")))
        spec["clients"] = mine + theirs
        # anybody can be preempted by anybody
        nc = len(spec["clients"])
        for ops in spec["clients"]:
            for op in ops:
                if not op.get("pre") and r.random() < 0.5:
                    G.schedule(r, op, nc, G.LENGTH.get(op["op"], 600), 1.0)
                for p in op.get("pre", ()):
                    if r.random() < 0.6:
                        p[1] = r.randrange(nc)
                if "next" in op and r.random() < 0.6:
                    op["next"] = r.randrange(nc)
        return spec

    def runs(self):
        return self.quick if self.tier == "quick" else self.thorough

    def spec(self, i):
        raise NotImplementedError

    def execute(self, spec, stats):
        """Run one specification; returns a result dict."""
        w = self.world(spec, stats)
        sim = engine.Sim(spec["clients"], w.exec_op, env=spec.get("env"), stats=stats)
        w.prepare(sim)
        err = sim.run(first=spec.get("env", {}).get("first", 0))
        viol = list(w.violations)
        if err is not None:
            kind, text = err
            if kind == "harness":
                return {"harness": text}
            viol.append({"client": -1, "op": -1, "kind": "run", "class": "stuck" if kind == "deadlock" else kind, "detail": text})
            if kind == "hang":
                return {"hang": text, "viol": viol}
        else:
            viol += w.finish(sim)
        return {"viol": viol, "digest": sim.digest(), "inter": sim.interleaving(), "steps": sim.steps, "simtime": sim.steps * 1e-3}

    # shape of a generated operation, used as the measure of distinct cases
    def key(self, spec):
        import hashlib, json

        return hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]


def clients_for(r, lo=1, hi=4):
    return r.choice([c for c in (1, 2, 2, 3, 3, 4) if lo <= c <= hi])


def op_common(r, op, p_fresh=0.3):
    if r.random() < p_fresh:
        op["fresh"] = True
    op["vt"] = r.choice(["f", "f", "np", "j", "nd"])
    if r.random() < 0.4:
        op["inplace"] = True
    if not op.get("fresh") and not op.get("jit") and r.random() < 0.2:
        op["edit"] = True
    return op


# ============================================================== C01
@prop
class C01(Prop):
    id = "C01"
    guests = 0.25
    quick = 240

    def flavour(self, r, i):
        if i % 16 == 7:
            return "sparse"
        if i % 48 == 15:
            return "big"
        if i % 40 == 21:
            return "long"
        if i % 40 == 33:
            return "soak"
        return "dense"

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        fl = self.flavour(r, i)
        n = {"sparse": r.choice([1, 2, 2, 3, 3, 4]), "big": r.choice([9, 9, 10, 11, 12, 13])}.get(fl) or G.wide(r, i, G.pick_n(r, 6))
        kw = dict(max_gates=5, p_noise=0.1) if n > 6 else {}
        if fl == "sparse":
            kw = dict(p_noise=0, max_gates=4)
        if fl == "big":
            kw = dict(max_gates=4, p_noise=0.1) if n == 9 else dict(max_gates=8, p_noise=0)
        if fl == "long":  # many gates
            n = r.choice([2, 3, 4, 5])
            kw = dict(max_gates=r.choice([30, 60, 110]), p_noise=r.choice([0, 0, 0.1]))
        if fl == "soak":  # many calls
            n = r.choice([1, 2, 3])
            kw = dict(max_gates=2)
        st = G.Style(r, n, **kw)
        nc = clients_for(r)
        states = [G.state(r, n, 0 if fl == "sparse" else 0.35) for _ in range(r.choice([1, 2, 3]))]
        if fl == "big":
            states = [{"kind": "product", "bits": "".join(r.choice("01") for _ in range(n)), "dm": n == 9 and r.random() < 0.5}]
            if n > 9 and r.random() < 0.6:
                states = [{"kind": "vec", "seed": r.randrange(1000)}]
        circs = [G.circuit(r, st, ("qc", "seq", "list", "prim"), lo=st.max_gates // 2 if fl == "long" else 1) for _ in range(12 if fl == "soak" else r.choice([1, 2, 3]))]
        if fl == "soak":
            nc = r.choice([1, 2])
        if fl == "sparse":
            states = [dict(s, sparse=True) for s in states]
            circs = [dict(c, sparse=True) for c in circs]
        if fl == "dense" and n > 1 and r.random() < 0.25:
            G.add_ham(r, n, circs)
        if fl != "big":
            G.variants(r, circs, n)
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(2, 7) if fl == "dense" else 70 if fl == "soak" else 2):
                c = r.randrange(len(circs))
                op = {"op": "run", "s": r.randrange(len(states)), "c": c}
                if ops and r.random() < 0.35:  # same call, one thing different
                    op.update({k: ops[-1][k] for k in ("s", "c")})
                    c = op["c"]
                names = G.names_of_gates(circs[c]["gates"])
                op["v"] = G.values_for(r, names)
                if ops and ops[-1]["c"] == c and r.random() < 0.5:
                    op["v"] = dict(ops[-1]["v"])
                    if op["v"]:
                        k = r.choice(list(op["v"]))
                        op["v"][k] = G.angle(r) if r.random() < 0.6 else G.nudged(r, op["v"][k])
                kind = circs[c]["kind"]
                vias = ["steps", "apply", "apply", "apply1"]
                if kind != "list":
                    vias += ["run", "run", "call"]
                op["via"] = r.choice(vias)
                if op["via"].startswith("apply"):
                    op["dagger"] = r.random() < 0.25
                    op["group"] = r.random() < 0.4
                    op["merge"] = r.random() < 0.7
                op_common(r, op)
                G.ints(r, op["v"])
                if not op["v"] and r.random() < 0.5:
                    op["default"] = True
                G.schedule(r, op, nc, 80 * max(2, len(R.flat_gates(circs[c]["gates"]))))
                G.faults(r, op, 300, p=0.08)
                ops.append(op)
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "clients": clients, "env": G.env(r), "flavour": fl}


# ============================================================== C02
@prop
class C02(Prop):
    id = "C02"
    guests = 0.25
    quick = 200

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        fl = "sparse" if i % 16 == 7 else "big" if i % 48 == 15 else "long" if i % 40 == 21 else "soak" if i % 40 == 33 else "dense"
        n = {"sparse": r.choice([1, 2, 2, 3]), "big": r.choice([9, 9, 10, 11, 12])}.get(fl) or G.wide(r, i, G.pick_n(r, 5))
        kw = dict(p_noise=0, max_gates=3) if fl == "sparse" else dict(max_gates=4, p_noise=0.1) if n > 5 else {}
        if fl == "big":
            kw = dict(max_gates=3, p_noise=0)
        if fl == "long":  # many gates
            n = r.choice([2, 3, 4])
            kw = dict(max_gates=r.choice([25, 50, 80]), p_noise=r.choice([0, 0, 0.1]))
        if fl == "soak":  # many calls
            n = r.choice([1, 2, 3])
            kw = dict(max_gates=2)
        st = G.Style(r, n, **kw)
        nc = clients_for(r)
        states = [G.state(r, n, 0 if fl == "sparse" else 0.35) for _ in range(r.choice([1, 2]))]
        if fl == "big":
            states = [{"kind": "product", "bits": "010110101", "dm": True}, {"kind": "vec", "seed": r.randrange(1000)}]
            if n > 9:
                states = [{"kind": "product", "bits": "010110101001"[:n]}, {"kind": "vec", "seed": r.randrange(1000)}]
        onames = r.sample(["w0", "w1", "c", "a"], r.choice([0, 1, 2]))
        circs = [G.circuit(r, st, ("qc", "seq", "list", "prim"), lo=st.max_gates // 2 if fl == "long" else 1) for _ in range(6 if fl == "soak" else r.choice([1, 2, 2]))]
        gnames = list(dict.fromkeys(k for c in circs for k in G.names_of_gates(c["gates"])))
        if gnames and fl == "dense" and r.random() < 0.35:
            onames.append(r.choice(gnames))  # the same name in the circuit and in an observable
        obs = [G.observable(r, n, onames, hermitian=r.random() < 0.6) for _ in range(8 if fl == "soak" else r.choice([1, 2, 3, 4]))]
        if fl == "soak":
            nc = r.choice([1, 2])
        if fl == "dense" and n > 1 and r.random() < 0.2:
            G.add_ham(r, n, circs)
        if fl == "dense":
            G.variants(r, circs, n)
            G.variants_obs(r, obs)
        if fl == "big":
            obs = [{"o": "add", "x": [{"o": "seq", "x": [{"o": "prim", "g": {"k": "Y", "t": [n - 1]}}, {"o": "prim", "g": {"k": "Z", "t": [q]}}]}, {"o": "prim", "g": {"k": "X", "t": [n - 1], "c": [q]}}]} for q in (1, r.randrange(2, n - 1))]
        if fl == "sparse":
            states = [dict(s, sparse=True) for s in states]
            circs = [dict(c, sparse=True) for c in circs]
            obs = [{"o": "add", "sparse": True, "x": [self.sparse_term(r, n) for _ in range(r.choice([1, 2]))]} for _ in range(2)]
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(2, 5) if fl == "dense" else 40 if fl == "soak" else 2):
                c = r.randrange(len(circs))
                op = {"op": "exp", "s": r.randrange(len(states)), "c": c}
                op["o"] = [r.randrange(len(obs)) for _ in range(r.choice([1, 1, 2, 3, 3 if n > 4 else r.choice([3, 6, 9])]))]
                names = G.names_of_gates(circs[c]["gates"])
                ons = [k for j in op["o"] for k in G.names_of_obs(obs[j])]
                noisy = R.has_noise(circs[c]["gates"])
                dm = states[op["s"]]["kind"] == "mixed" or states[op["s"]].get("dm")
                modes = ["ad", "gpsr"] if noisy or dm else ["ad", "gpsr", "adjoint"]
                op["mode"] = r.choice(modes)
                if circs[c]["kind"] != "list" and r.random() < 0.15:
                    op["via"] = "obs"
                if op.get("via") != "obs" and op["mode"] == "ad" and r.random() < 0.25:
                    op["nested"] = True
                    op["v"] = G.values_for(r, names)
                    op["vo"] = G.values_for(r, list(dict.fromkeys(ons)))
                    if r.random() < 0.5:  # names known to both, with values of their own
                        op["vo"].update({k: G.angle(r) for k in op["v"] if k not in op["vo"]})
                    if r.random() < 0.5:
                        op["v"].update({k: G.angle(r) for k in op["vo"] if k not in op["v"]})
                else:
                    op["v"] = G.revalue(r, G.values_for(r, list(dict.fromkeys(names + ons))), ops)
                G.ints(r, op["v"])
                if not op["v"] and not op.get("nested") and r.random() < 0.5:
                    op["default"] = True
                op_common(r, op)
                op["strmode"] = r.random() < 0.3
                G.schedule(r, op, nc, 100 * max(2, len(R.flat_gates(circs[c]["gates"]))) * len(op["o"]))
                G.faults(r, op, 500, p=0.08)
                ops.append(op)
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": fl}

    def sparse_term(self, r, n):
        if r.random() < 0.3:
            return G.node(r, n, (), 1)
        g = {"o": "prim", "g": {"k": r.choice("XYZ"), "t": [r.randrange(n)]}}
        k = r.random()
        if k < 0.4:
            return g
        if k < 0.7:
            return {"o": "scale", "p": round(r.uniform(-2, 2), 3), "x": g}
        return {"o": "seq", "x": [g, {"o": "prim", "g": {"k": "Z", "t": [r.randrange(n)]}}]}


# ============================================================== C03
@prop
class C03(Prop):
    id = "C03"
    guests = 0.25
    quick = 130

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.wide(r, i, G.pick_n(r, 4))
        st = G.Style(r, n, ctrl_rot=False, max_gates=r.choice([3, 5, 7]), p_rot=r.choice([0.6, 0.85]))
        if n > 4:
            st.max_gates, st.p_noise = 4, 0
        long = i % 40 == 21  # many gates, many parameters
        if long:
            n = min(n, 3)
            st.n, st.max_gates, st.two = n, r.choice([14, 18, 24]), st.two if n > 1 else []
            st.names = [f"p{k}" for k in r.sample(range(20), 16)]
            st.p_ctrl, st.p_two = (st.p_ctrl, st.p_two) if n > 1 else (0, 0)
        if r.random() < 0.3:
            st.ctrl_rot = True
        if r.random() < 0.5:
            st.p_noise = 0
        if r.random() < 0.15:  # names that a numbering of the uses of the first one could make up
            b = r.choice(["a", "theta", "w"])
            st.names = [b, b, r.choice(["{}_0", "{}_1", "{}_0", "{}_1", "{}_2", "{}0", "{}1", "{}2", "{}_", "_{}"]).format(b)]
            st.p_fixed, st.p_rot, st.max_gates, st.ctrl_rot, st.p_noise = 0, 0.9, 7, False, 0
        nc = clients_for(r, 1, 3)
        states = [G.state(r, n, 0.25) for _ in range(r.choice([1, 2]))]
        circs = [G.circuit(r, st, ("qc", "seq", "list", "prim"), st.max_gates // 2 if long else 4 if len(set(st.names)) < len(st.names) else 1) for _ in range(1 if long else r.choice([1, 2]))]
        if n > 1 and r.random() < 0.15:
            G.add_ham(r, n, circs, 2)
        if r.random() < 0.4:
            G.variants(r, circs, n, 0.5)
        onames = r.sample(["w0", "w1", "c"], r.choice([0, 0, 1, 2]))
        gnames = [k for c in circs for k in G.names_of_gates(c["gates"])]
        if gnames and r.random() < 0.2:  # (not in GPSR mode: a known finding)
            onames.append(r.choice(gnames))
        obs = [G.observable(r, n, onames) for _ in range(r.choice([1, 2, 3]))]
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(1 if long else r.randint(1, 4)):
                c = r.randrange(len(circs))
                op = {"op": "grad", "s": r.randrange(len(states)), "c": c}
                op["o"] = [r.randrange(len(obs)) for _ in range(r.choice([1, 1, 2, 3]))]
                op["w"] = [round(r.uniform(-2, 2), 3) for _ in op["o"]]
                names = G.names_of_gates(circs[c]["gates"])
                ons = list(dict.fromkeys(k for j in op["o"] for k in G.names_of_obs(obs[j])))
                op["v"] = G.revalue(r, G.values_for(r, list(dict.fromkeys(names + ons)), extra=0.25), ops, 0.25)
                if not op["v"]:
                    op["v"] = {"unused": G.angle(r)}
                gs = R.flat_gates(circs[c]["gates"])
                multigap = any(isinstance(g.get("p"), str) and g["k"] != "PHASE" and g.get("c") for g in gs)
                noisy = R.has_noise(circs[c]["gates"])
                dm = states[op["s"]]["kind"] == "mixed" or states[op["s"]].get("dm")
                modes = ["ad"]
                if not (noisy or dm):
                    modes.append("adjoint")
                if not multigap and not G.has_ham(circs[c]) and not set(names) & set(ons) and max([sum(1 for j in op["o"] for x in G.names_of_obs(obs[j]) if x == k) for k in ons] or [0]) <= 6:
                    modes += ["gpsr", "gpsr", "gpsr"]
                op["mode"] = r.choice(modes)
                vias = ["grad", "grad", "vag", "jvp", "jac"]
                if op["mode"] == "gpsr":
                    vias += ["bwd", "bwd", "bwd"]
                op["via"] = r.choice(vias)
                if i % 10 == 3 and not long and len(op["v"]) <= 2 and n <= 3 and r.random() < 0.5:
                    op["via"] = "hess"
                    op["o"], op["w"] = op["o"][:1], op["w"][:1]
                if op["via"] == "jvp":
                    op["t"] = [round(r.uniform(-1, 1), 3) for _ in op["v"]]
                if op["via"] in ("bwd", "grad", "vag") and r.random() < (0.35 if op["via"] == "bwd" else 0.12):
                    op["jit"] = True
                op_common(r, op)
                G.schedule(r, op, nc, 3000)
                G.faults(r, op, 1500, p=0.1)
                ops.append(op)
                if op["mode"] == "gpsr" and not long and not op.get("edit") and r.random() < 0.3 and len(circs[c]["gates"]) > 1:
                    circs.append(G.reordered(r, circs[c]))  # the same names, gates at other places
                    op = {k: copy.deepcopy(x) for k, x in op.items() if k not in ("pre", "faults", "next", "hot")}
                    op["c"] = len(circs) - 1
                    ops.append(G.schedule(r, op, nc, 3000))
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "grad"}


# ============================================================== mixed workloads
def mixed_ops(r, nc, n, states, circs, obs, count, kinds, p_fault, length_scale=1.0):
    """Operation lists over a shared pool, for the properties about side effects."""
    clients = []
    for _ in range(nc):
        ops = []
        for _ in range(count(r)):
            ops.append(mixed_op(r, nc, n, states, circs, obs, r.choice(kinds), p_fault))
        clients.append(ops)
    return clients


def mixed_op(r, nc, n, states, circs, obs, kind, p_fault):
    c = r.randrange(len(circs))
    s = r.randrange(len(states))
    op = {"op": kind, "s": s, "c": c}
    if kind == "hea":
        op.update(q=r.choice([1, 2, 3]), layers=r.choice([1, 2]), v={})
        G.schedule(r, op, nc, 150)
        return G.faults(r, op, 100, p=p_fault)
    if kind == "build":
        kinds = ["circuit", "default", "observable", "sum", "scale", "conv-obs", "conv"]
        op.update(kind=r.choice(kinds), o=[r.randrange(len(obs))], fp=r.sample(["a", "b", "x"], r.choice([0, 1, 2])), there=r.random() < 0.5, v={})
        G.schedule(r, op, nc, 100)
        return G.faults(r, op, 50, p=p_fault)
    names = G.names_of_gates(circs[c]["gates"])
    noisy = R.has_noise(circs[c]["gates"])
    dm = bool(states[s]["kind"] == "mixed" or states[s].get("dm"))
    multigap = G.has_ham(circs[c]) or any(isinstance(g.get("p"), str) and g["k"] != "PHASE" and g.get("c") for g in R.flat_gates(circs[c]["gates"]))
    length = G.LENGTH.get(kind, 500)
    if kind in ("exp", "grad", "shots", "shotgrad"):
        op["o"] = [r.randrange(len(obs)) for _ in range(r.choice([1, 1, 2]))]
        names = list(dict.fromkeys(names + [k for j in op["o"] for k in G.names_of_obs(obs[j])]))
    op["v"] = G.values_for(r, names)
    op_common(r, op)
    islist = circs[c]["kind"] == "list"
    if kind == "run":
        op["via"] = r.choice(["steps", "apply", "apply", "apply1"] + ([] if islist else ["run", "run", "call"]))
        if op["via"].startswith("apply"):
            op.update(dagger=r.random() < 0.25, group=r.random() < 0.6, merge=r.random() < 0.7)
    elif kind == "exp":
        op["mode"] = r.choice(["ad", "gpsr"] + ([] if noisy or dm else ["adjoint"]))
        if not islist and r.random() < 0.15:
            op["via"] = "obs"
        elif op["mode"] == "ad" and r.random() < 0.3:
            op["nested"] = True
            op["v"] = G.values_for(r, G.names_of_gates(circs[c]["gates"]))
            op["vo"] = G.values_for(r, list(dict.fromkeys(k for j in op["o"] for k in G.names_of_obs(obs[j]))))
    elif kind == "grad":
        if not op["v"]:
            op["v"] = {"unused": 0.5}
        op["w"] = [round(r.uniform(-2, 2), 3) for _ in op["o"]]
        op["mode"] = r.choice(["ad"] + ([] if noisy or dm else ["adjoint"]) + ([] if multigap else ["gpsr", "gpsr"]))
        op["via"] = r.choice(["grad", "vag"] + (["bwd", "bwd"] if op["mode"] == "gpsr" else []))
        op["jit"] = op["via"] == "bwd" and r.random() < 0.3
    elif kind == "sample":
        if islist:
            op["op"] = "run"
            op["via"] = "apply"
        else:
            op["shots"] = r.choice([1, 7, 50, 200])
            if r.random() < 0.1:
                op.update(shots=1000, nshots="default")
    elif kind in ("shots", "shotgrad"):
        op["shots"] = r.choice([1, 10, 100])
        op["key"] = r.randrange(10**6)
        op["typed"] = r.random() < 0.15
        op["nokey"] = r.random() < 0.1
        op["mode"] = r.choice(["ad", "gpsr"]) if kind == "shots" else "gpsr"
        if kind == "shotgrad":
            if multigap:
                op["op"] = "shots"
            if not op["v"]:
                op["v"] = {"unused": 0.5}
            op["via"] = r.choice(["grad", "bwd"])
    G.schedule(r, op, nc, length)
    G.faults(r, op, length // 2, p=p_fault)
    return op


def pool(r, n, st, hermitian=True):
    states = [G.state(r, n, 0.45) for _ in range(r.choice([1, 2, 3]))]
    circs = [G.circuit(r, st, ("qc", "seq", "list")) for _ in range(r.choice([1, 2, 3]))]
    if n > 1 and r.random() < 0.12:
        G.add_ham(r, n, circs, 2)
    variants = r.random() < 0.4
    if variants:
        G.variants(r, circs, n, 0.5)
    onames = r.sample(["w0", "w1"], r.choice([0, 0, 1, 2]))
    obs = [G.observable(r, n, onames, hermitian) for _ in range(r.choice([1, 2, 3]))]
    return states, circs, obs


# ============================================================== C04
def describe(x):
    """The content of an argument, as its owner sees it."""
    import jax
    from jax.experimental.sparse import BCOO

    t = type(x).__name__
    if isinstance(x, dict):
        return ("dict", tuple((k, describe(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (t, tuple(describe(v) for v in x))
    if isinstance(x, BCOO):
        return ("bcoo", x.shape, np.asarray(x.data).tobytes(), np.asarray(x.indices).tobytes())
    if isinstance(x, (jax.Array, np.ndarray, np.generic)):
        a = np.asarray(x)
        return (t if not isinstance(x, jax.Array) else "jax", a.shape, str(a.dtype), a.tobytes())
    if t == "DensityMatrix":
        return ("dm", describe(x.array))
    if hasattr(x, "operations"):
        return (t, describe(list(x.operations)), getattr(x, "parameter", None), getattr(x, "n_qubits", None), describe(list(getattr(x, "fparams", ()))))
    if hasattr(x, "generator_name"):
        nz = x.noise
        return (t, x.generator_name, x.target, x.control, None if nz is None else tuple((str(i.type), i.error_probability) for i in nz), getattr(x, "sparse", None), getattr(x, "param", None), getattr(x, "shift", None))
    return (t, repr(x))


def elements(x):
    """Identities inside containers of the caller."""
    if isinstance(x, dict):
        return [(k, id(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [id(v) for v in x]
    if hasattr(x, "operations"):
        return [id(v) for v in x.operations]
    return None


class FrozenWorld(World):
    """Every object a caller owns is compared with what it was, after each call, at
    each preemption and after each failed call."""

    def prepare(self, sim):
        self.mine = {}
        pooled = [(f"state {i}", x) for i, x in enumerate(self.states)]
        pooled += [(f"circuit {i}", x) for i, x in enumerate(self.circs)]
        pooled += [(f"observable {i}", x) for i, x in enumerate(self.obss)]
        self.pooled = [(nm, x, describe(x), elements(x), getattr(x, "array", None)) for nm, x in pooled]
        super().prepare(sim)
        sim.on_preempt = self.at_preempt

    def track(self, client, name, x):
        self.mine.setdefault(client.idx, []).append((name, x, describe(x), elements(x), getattr(x, "array", None)))

    def changed(self, lst):
        for nm, x, d, e, a in lst:
            if describe(x) != d:
                return f"{nm}: {str(describe(x))[:200]} was {str(d)[:200]}"
            if elements(x) != e:
                return f"{nm}: its elements were replaced"
            if a is not None and x.array is not a:
                return f"{nm}: its array was replaced"
        return None

    def at_preempt(self, client):
        if self.guest and client.ops[client.opno].get("guest"):
            return self.guest.at_preempt(client)
        self.stats["argument-checks"] = self.stats.get("argument-checks", 0) + 1
        if client.idx not in self.mine:
            return
        d = self.changed(self.pooled) or self.changed(self.mine.get(client.idx, []))
        if d and not getattr(client, "reported", False):
            client.reported = True
            self.violate(self.sim, client, client.opno, client.ops[client.opno], "mutated", d + " (during the call)")

    def exec_op(self, sim, client, i, op):
        if op.get("guest") and self.guest:
            return super().exec_op(sim, client, i, op)
        self.mine[client.idx] = []
        client.reported = False
        super().exec_op(sim, client, i, op)

    def get_state(self, op):
        x = super().get_state(op)
        self._last("state", x[0])
        return x

    def get_circ(self, op):
        x = super().get_circ(op)
        self._last("circuit", x[0])
        return x

    def get_obs(self, op):
        x = super().get_obs(op)
        self._last("observables", x[0])
        return x

    def get_values(self, op, client, extra=None):
        x = super().get_values(op, client, extra)
        self._last("values", x)
        return x

    def own(self, name, x):
        self._last(name, x)
        return x

    def _last(self, name, x):
        self.track(engine._me(), name, x)

    def after_op(self, sim, client, i, op, res, exc):
        self.stats["argument-checks"] = self.stats.get("argument-checks", 0) + 1
        d = self.changed(self.mine[client.idx]) or self.changed(self.pooled)
        if d:
            self.violate(sim, client, i, op, "mutated", d + (" (by a call that failed)" if exc is not None else ""))
            self.repair()
            return
        # what the library returned belongs to the caller now
        if exc is None and op.get("scribble"):
            self.scribble(res)
            d = self.changed(self.mine[client.idx]) or self.changed(self.pooled)
            if d:
                if not any(res is x for _, x, *_ in self.mine[client.idx]):
                    self.violate(sim, client, i, op, "aliased", "writing to the result changed " + d)
                self.repair()
        self.mine[client.idx] = []

    def repair(self):
        self.build()
        mine = self.mine
        self.prepare(self.sim)
        self.mine = mine
        me = engine._me()
        self.mine[me.idx] = []

    def scribble(self, res):
        if isinstance(res, dict):
            res.clear()
        elif isinstance(res, list):
            res.clear()
        elif type(res).__name__ == "DensityMatrix":
            if not any(res is x for _, x, *_ in self.mine[engine._me().idx]):
                res.array = None


@prop
class C04(Prop):
    id = "C04"
    guests = 0.25
    quick = 150
    world = FrozenWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.wide(r, i, G.pick_n(r, 3))
        st = G.Style(r, n, max_gates=r.choice([2, 4, 6]), ctrl_rot=r.random() < 0.3)
        if n > 4:
            st.p_noise = 0
        nc = clients_for(r)
        states, circs, obs = pool(r, n, st)
        if r.random() < 0.2:
            c = r.choice(circs)  # the caller's own list of gates
            c["kind"], c["gates"] = "list", R.flat_gates(c["gates"])
        if r.random() < 0.2:
            circs.append({"kind": r.choice(["qc", "seq"]), "gates": []})
        kinds = r.choice([["run", "exp", "sample", "shots"], ["grad", "exp", "run"], ["shots", "shotgrad", "sample"], ["run", "exp", "grad", "sample", "shots", "names"], ["build", "run", "exp", "hea"]])
        clients = mixed_ops(r, nc, n, states, circs, obs, lambda r: r.randint(2, 5), kinds, 0.3)
        for ops in clients:
            for op in ops:
                op["scribble"] = r.random() < 0.6
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "mixed"}


# ============================================================== C05
class SteadyWorld(World):
    """After the run, random calls that returned are made again in a process that has
    seen no failure: same arguments and keys, same answers."""

    RANDOM = ("shots", "shotgrad", "sample")

    def __init__(self, spec, stats, host=None):
        self.kept = host.kept if host else []
        super().__init__(spec, stats, host)

    def after_op(self, sim, client, i, op, res, exc):
        if exc is None and op["op"] in self.RANDOM and not (op.get("nokey") and op["op"] == "shots"):
            from .world2 import plain

            self.kept.append((self, client, i, op, plain(res)))

    def finish(self, sim):
        from .world2 import plain, same_plain

        seen, out = set(), []
        fresh = None
        faulted = any(e[0] == "end" and e[3] != "ok" for e in sim.log)
        for w, client, i, op, got in self.kept[-12:] if faulted else ():
            k = (id(w), json.dumps({k: x for k, x in op.items() if k not in ("pre", "faults", "hot", "next")}, sort_keys=True), json.dumps(got))
            if k in seen:
                continue
            seen.add(k)
            fresh = fresh or type(self)(self.spec, {})
            v = fresh.guest if w is not self else fresh
            v.who = client.idx
            want = plain(getattr(v, "op_" + op["op"])(op, client)[0]())
            self.stats["compared-with-fresh-process"] = self.stats.get("compared-with-fresh-process", 0) + 1
            if not same_plain(got, want):
                out.append({"client": client.idx, "op": i, "kind": op["op"], "class": "left-trace", "detail": f"{str(got)[:200]} after a failed call, {str(want)[:200]} in a process without failures"})
        return out


@prop
class C05(Prop):
    id = "C05"
    world = SteadyWorld
    guests = 0.25
    quick = 170

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.pick_n(r, 3)
        st = G.Style(r, n, max_gates=r.choice([2, 4, 6]), ctrl_rot=r.random() < 0.3)
        nc = clients_for(r)
        states, circs, obs = pool(r, n, st)
        kinds = r.choice([["run", "exp", "sample", "bad"], ["grad", "exp", "bad"], ["shots", "shotgrad", "bad"], ["run", "exp", "grad", "sample", "shots", "bad", "names", "hea"]])
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(3, 6)):
                k = r.choice(kinds)
                if k == "bad":
                    op = self.bad(r, nc, n, states, circs, obs)
                else:
                    op = mixed_op(r, nc, n, states, circs, obs, k, 0.0)
                    G.faults(r, op, G.LENGTH.get(op["op"], 500), p=0.55, p_nuisance=0.08)
                    if op.get("faults") and r.random() < 0.6:  # the same call again, after the failure
                        ops.append(op)
                        op = {k: v for k, v in op.items() if k not in ("faults", "pre", "hot")}
                ops.append(op)
            # faults have stopped: everything must work
            ops.append(mixed_op(r, 1, n, states, circs, obs, r.choice([k for k in kinds if k != "bad"]), 0.0))
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "faulty"}

    def bad(self, r, nc, n, states, circs, obs):
        op = mixed_op(r, nc, n, states, circs, obs, r.choice(["run", "exp"]), 0.0)
        op["what"] = r.choice(["shots0", "shots-", "missing", "mode", "noise", "adjoint_dm", "support", "missing_obs", "sparse_noise", "adjoint_shots", "outside", "outside", "type"])
        op["kind0"] = op["op"]
        op["op"] = "bad"
        if op.pop("nested", False):
            op["v"] = {**op["v"], **op.pop("vo")}
        op["o"] = [r.randrange(len(obs))]
        gn = G.names_of_gates(circs[op["c"]]["gates"])
        on = [k for k in G.names_of_obs(obs[op["o"][0]]) if k not in gn]
        if (gn or on) and r.random() < 0.5:
            self.omit(r, op, gn, on, circs[op["c"]], states[op["s"]])
            return op
        op["err"] = {
            "shots0": ["ValueError"], "shots-": ["ValueError"], "missing": ["KeyError"], "missing_obs": ["KeyError"],
            "mode": ["ValueError"], "noise": ["ValueError"], "adjoint_dm": ["TypeError"],
            "support": ["ValueError"], "sparse_noise": ["NotImplementedError"], "adjoint_shots": ["ValueError", "TypeError", "NotImplementedError"],
            "outside": ["ValueError", "TypeError", "IndexError", "KeyError"], "type": ["NotImplementedError", "TypeError", "ValueError", "AttributeError"],
        }[op["what"]]
        op["amount"] = r.choice([-1, -7, -100])
        op["pick"] = r.randrange(1000)
        d = 10 ** r.uniform(-7, 0)  # how far beyond what is possible
        op["noise"] = r.choice([[r.choice(G.NOISE1), 1 + d], [r.choice(G.NOISE1), -d], ["PauliChannel", r.sample([0.5, 0.25, 0.25 + d], 3)], ["PauliChannel", r.sample([-d, 0.2, 0.3], 3)], ["GeneralizedAmplitudeDamping", r.sample([0.4, r.choice([1 + d, -d])], 2)], ["BitFlip", 1.2], ["PhaseFlip", -0.1], ["Depolarizing", 1.5], ["AmplitudeDamping", -0.3], ["PhaseDamping", 2.0], ["PauliChannel", [0.5, 0.4, 0.3]], ["PauliChannel", [-0.1, 0.2, 0.3]], ["GeneralizedAmplitudeDamping", [1.3, 0.2]], ["GeneralizedAmplitudeDamping", [0.3, -0.2]], [r.choice(G.NOISE1), "nan"]])
        return op


    def omit(self, r, op, gn, on, circ, state):
        """One of the values the call needs is not given."""
        op["what"], op["err"] = "omit", ["KeyError"]
        op["name"] = r.choice(gn + on)
        op["v"] = {k: op["v"].get(k, G.angle(r)) for k in gn + on}
        subs = ["ad", "gpsr", "shots-ad", "shots-gpsr", "grad", "jit", "bwd", "shots-bwd"]
        if op["name"] in gn:
            subs += ["run", "run", "apply", "sample"]
        if not (R.has_noise(circ["gates"]) or state["kind"] == "mixed" or state.get("dm")):
            subs.append("adjoint")
        if len(op["v"]) == 1:  # no derivative is asked for
            subs = [x for x in subs if "bwd" not in x]
        op["sub"] = r.choice(subs)


from . import props2  # noqa: E402,F401  (registers the others)
