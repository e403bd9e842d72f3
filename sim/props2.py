"""The properties that need transformations, statistics, restarts or twin executions."""
from __future__ import annotations

import copy

import numpy as np

from . import engine, gen as G, refmodel as R
from .props import PROPS, Prop, clients_for, op_common, pool, prop
from .world2 import BigWorld, TrainWorld, TwinWorld, host_state, reference_training, same_plain


def obs_names(op, obs):
    return list(dict.fromkeys(k for j in op["o"] for k in G.names_of_obs(obs[j])))


def is_dm(s):
    return bool(s["kind"] == "mixed" or s.get("dm"))


def multigap(c):
    """Circuits whose parameter-shift rule has more than one spectral gap."""
    return G.has_ham(c) or any(isinstance(g.get("p"), str) and g["k"] != "PHASE" and g.get("c") for g in R.flat_gates(c["gates"]))


# ============================================================== C06
@prop
class C06(Prop):
    id = "C06"
    guests = 0.25
    world = BigWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.wide(r, i, G.pick_n(r, 3), 40)
        self.sparse = i % 12 == 5
        if self.sparse:
            n = r.choice([1, 2, 2, 3])
        st = G.Style(r, n, max_gates=r.choice([2, 3, 5]), p_rot=r.choice([0.5, 0.8]), ctrl_rot=r.random() < 0.4)
        if self.sparse:
            st.p_noise = 0
            st.max_gates = 3
        if n > 4:
            st.p_noise = 0
        nc = clients_for(r, 1, 3)
        states, circs, obs = pool(r, n, st)
        for s in states:
            s.pop("real", None)  # (a loop needs states of one type)
        if self.sparse:
            states = [{"kind": "product", "bits": "".join(r.choice("01") for _ in range(n)), "sparse": True}]
            states += [dict(G.state(r, n, 0), sparse=True) for _ in range(r.choice([0, 1]))]
            circs = [dict(c, sparse=True) for c in circs if not G.has_ham(c)] or [{"kind": "seq", "sparse": True, "gates": [{"k": "H", "t": [0]}]}]
            obs = [{"o": "add", "sparse": True, "x": [PROPS["C02"].sparse_term(self, r, n) for _ in range(r.choice([1, 2]))]} for _ in range(2)]
        for c in list(circs):
            if r.random() < 0.7:
                circs.append(G.variant(r, c, n))
        for o in list(obs):
            o2 = G.nudge_obs(r, o)
            if o2 and r.random() < 0.5:
                obs.append(o2)
            if r.random() < 0.4 and not self.sparse:
                o2 = copy.deepcopy(o)
                o2["x"] = o2["x"] + [{"o": "scale", "p": round(r.uniform(-2, 2), 3), "x": G.prim_obs(r, n)}]
                obs.append(o2)
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(2, 5)):
                ops.append(self.tf(r, nc, n, states, circs, obs, ops))
                if ops[-1]["form"] == "jitargs" and r.random() < 0.5:
                    ops.append(self.twin(r, nc, ops[-1], circs, obs, n))
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "transforms"}

    def twin(self, r, nc, op, circs, obs, n):
        """The compiled function again, with a circuit or an observable that differs in one detail."""
        op = copy.deepcopy(op)
        for k in ("pre", "faults", "next", "hot", "fresh", "edit"):
            op.pop(k, None)
        o2 = G.nudge_obs(r, obs[op["o"][0]]) if r.random() < 0.25 else None
        if o2:
            obs.append(o2)
            op["o"] = [len(obs) - 1] + op["o"][1:]
        else:
            c = circs[op["c"]]
            c2 = copy.deepcopy(c)
            gs = [g for g in R.flat_gates(c2["gates"]) if g.get("noise") or isinstance(g.get("p"), float) or isinstance(g.get("sh"), float)]
            if not (gs and r.random() < 0.6 and G.nudge(r, r.choice(gs))):
                c2 = G.variant(r, c, n)
            if c2 == c or (op.get("mode") == "adjoint" and R.has_noise(c2["gates"])) or (op.get("mode") == "gpsr" and multigap(c2)):
                return op
            circs.append(c2)
            op["c"] = len(circs) - 1
        op["v"] = {**{k: G.angle(r) for k in G.names_of_gates(circs[op["c"]]["gates"])}, **op["v"]}
        G.schedule(r, op, nc, 900)
        return op

    def tf(self, r, nc, n, states, circs, obs, before):
        if before and r.random() < 0.45:  # the same transformed function, something changed
            op = copy.deepcopy(r.choice(before))
            for k in ("pre", "faults", "next", "hot"):
                op.pop(k, None)
            if op["op"] == "tf" and op["form"] == "jitargs" and r.random() < 0.7:
                op["c"] = r.randrange(len(circs))
                op["s"] = r.randrange(len(states))
                op["o"] = [r.randrange(len(obs)) for _ in op["o"]]
                if op.get("mode") == "adjoint" and (R.has_noise(circs[op["c"]]["gates"]) or is_dm(states[op["s"]])):
                    op["mode"] = "ad"
                names = G.names_of_gates(circs[op["c"]]["gates"])
                op["v"] = {k: op["v"].get(k, G.angle(r)) for k in names + [x for x in obs_names(op, obs) if x not in names]}
            for k in list(op["v"]):
                q = r.random()
                if q < 0.6:
                    op["v"][k] = G.angle(r) if q < 0.4 else G.nudged(r, op["v"][k])
            if "vb" in op:
                op["vb"] = [{k: G.angle(r) for k in op["v"]} for _ in op["vb"]]
            if op.get("vt"):
                op["vt"] = r.choice(["f", "np", "j", "nd"])
            G.schedule(r, op, nc, 900)
            return op
        c, s = r.randrange(len(circs)), r.randrange(len(states))
        op = {"op": "tf", "c": c, "s": s, "o": [r.randrange(len(obs)) for _ in range(r.choice([1, 1, 2]))]}
        op["form"] = r.choice(["jit", "jit", "jitargs", "jitargs", "twice", "tree", "vmap", "vmapstate", "scan", "jitgrad", "vmapgrad"])
        op["q"] = r.choice(["state", "exp", "exp"])
        if self.sparse:
            op["form"] = r.choice(["jit", "jit", "jitargs", "jitargs", "twice", "tree"])
        if op["form"] in ("jitgrad", "vmapgrad"):
            op["q"] = "exp"
        names = G.names_of_gates(circs[c]["gates"])
        noisy, dm = R.has_noise(circs[c]["gates"]), is_dm(states[s])
        if op["q"] == "exp":
            names = list(dict.fromkeys(names + obs_names(op, obs)))
            modes = ["ad", "ad"] + ([] if noisy or dm else ["adjoint"]) + ([] if multigap(circs[c]) else ["gpsr"])
            op["mode"] = r.choice(modes)
        op["v"] = G.values_for(r, names)
        if op["form"] in ("vmap", "scan", "vmapgrad", "jitgrad") and not op["v"]:
            op["v"] = {"unused": G.angle(r)}
        op["vt"] = r.choice(["f", "np", "j", "nd"])
        if op["form"] in ("vmap", "scan", "vmapgrad"):
            op["vb"] = [{k: G.angle(r) for k in op["v"]} for _ in range(r.choice([1, 2, 3, 17, 65]) if r.random() < 0.3 else r.choice([1, 2, 3]))]
            op["jit"] = r.random() < 0.3
        if op["form"] == "vmapgrad" and op["mode"] == "adjoint":
            op["mode"] = "ad"
        if op["form"] == "scan" and op["q"] == "state" and noisy and not dm:
            op["q"] = "exp"
            op["mode"] = "ad"
            miss = [k for k in obs_names(op, obs) if k not in op["v"]]
            for d in [op["v"]] + op["vb"]:
                d.update({k: G.angle(r) for k in miss})
        if op["form"] == "vmapstate":
            op["sb"] = [{"kind": "vec", "seed": r.randrange(10**6)} for _ in range(r.choice([2, 3]))]
            if op.get("mode") == "adjoint":
                op["mode"] = "ad"
        if op["form"] in ("jitgrad", "vmapgrad"):
            op["w"] = [round(r.uniform(-2, 2), 3) for _ in op["o"]]
        if r.random() < 0.2:
            op["fresh"] = True
        elif op["form"] not in ("jit", "twice", "jitgrad") and r.random() < 0.15:
            op["edit"] = True
        G.schedule(r, op, nc, 900)
        G.faults(r, op, 600, p=0.12, p_nuisance=0.1)
        return op


# ============================================================== statistics
def hermitian_pool(r, n, names):
    """Observables for shots, some of them sharing an eigenbasis, some not."""
    out = []
    for _ in range(r.choice([1, 2, 3])):
        k = r.random()
        if k < 0.3:  # products of one Pauli kind
            p = r.choice("XYZ")
            qs = r.sample(range(n), r.randint(1, n))
            t = {"o": "seq", "x": [{"o": "prim", "g": {"k": p, "t": [q]}} for q in qs]}
            out.append({"o": "add", "x": [t]})
        elif k < 0.5:
            out.append({"o": "add", "x": [{"o": "scale", "p": r.choice(names) if names and r.random() < 0.5 else round(r.uniform(-2, 2), 3), "x": {"o": "prim", "g": {"k": "Z", "t": [q]}}} for q in r.sample(range(n), r.randint(1, n))]})
        else:
            out.append(G.observable(r, n, names))
    return out


def shot_case(r, n, names, ctrl_rot, dm=0.3):
    st = G.Style(r, n, max_gates=r.choice([2, 4, 6]), p_rot=0.6, ctrl_rot=ctrl_rot)
    states = [G.state(r, n, dm) for _ in range(r.choice([1, 2]))]
    circs = [G.circuit(r, st, ("qc", "seq")) for _ in range(r.choice([1, 2]))]
    return states, circs, hermitian_pool(r, n, names)


@prop
class C07(Prop):
    id = "C07"
    guests = 0.25
    world = BigWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.wide(r, i, G.pick_n(r, 4))
        if i % 60 == 32:
            n = r.choice([9, 10, 11])
        states, circs, obs = shot_case(r, n, (), True, 0.4 if n < 5 else 0.1 if n < 8 else 0)
        if n > 8:
            for c in circs:
                for g in R.flat_gates(c["gates"]):
                    g.pop("noise", None)
        if i % 4 == 1:
            self.rare(r, n, states, circs)
        G.variants(r, circs, n)
        nc = clients_for(r, 1, 3)
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(1, 4)):
                c = r.randrange(len(circs))
                op = {"op": "samplestat", "s": r.randrange(len(states)), "c": c, "fold": r.randrange(10**6)}
                if r.random() < 0.4:
                    op["op"] = "sample"
                    op["shots"] = r.choice([1, 2, 3, 17, 100, 1000, 30000])
                else:
                    op["reps"] = r.choice([4, 8])
                    op["shots"] = r.choice([2000, 5000, 5000, 10000, 40000, 100000, r.randint(300, 70000)])
                    if r.random() < 0.25:  # the spread of the counts
                        op.update(reps=150, shots=r.choice([8, 20, 64, 100, 127, 500, r.randint(2, 600)]))
                if ops and r.random() < 0.3:
                    op.update({k: ops[-1][k] for k in ("s", "c")})
                    c = op["c"]
                op["v"] = G.revalue(r, G.values_for(r, G.names_of_gates(circs[c]["gates"])), ops)
                op_common(r, op)
                G.schedule(r, op, nc, 500)
                G.faults(r, op, 300, p=0.12)
                ops.append(op)
            if r.random() < 0.25:
                ops.insert(r.randrange(len(ops) + 1), self.bad(r, states, circs, obs))
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "sample"}

    def rare(self, r, n, states, circs):
        """Outcomes of small probability: basis states, small angles, weak noise."""
        for s in states:
            if s["kind"] != "product" and r.random() < 0.7:
                dm = is_dm(s)
                s.clear()
                s.update(kind="product", bits="".join(r.choice("01") for _ in range(n)))
                if dm:
                    s["dm"] = True
        for c in circs:
            for g in R.flat_gates(c["gates"]):
                if g["k"] in ("H", "ISQRTSWAP", "SQRTSWAP") and r.random() < 0.7:
                    g["k"] = "X" if g["k"] == "H" else "SWAP"
                if g["k"] in G.ROT and r.random() < 0.8:
                    g["p"] = round(10 ** r.uniform(-2, -0.5), 6)
                    g.pop("sh", None)
                if g.get("noise"):
                    g["noise"] = [[r.choice(G.NOISE1), round(10 ** r.uniform(-4, -1.5), 6)]]

    def bad(self, r, states, circs, obs):
        c = r.randrange(len(circs))
        return {"op": "bad", "what": "shots0", "err": ["ValueError"], "s": r.randrange(len(states)), "c": c, "o": [0], "v": {k: 0.3 for k in G.names_of_gates(circs[c]["gates"])}}


@prop
class C08(Prop):
    id = "C08"
    guests = 0.25
    world = BigWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.pick_n(r, 3)
        names = r.sample(["w0", "w1"], r.choice([0, 0, 1, 2]))
        states, circs, obs = shot_case(r, n, names, True)
        G.variants(r, circs, n)
        G.variants_obs(r, obs)
        tilted = None
        if r.random() < 0.25:  # two observables of which the eigenbases nearly agree
            j = r.randrange(len(obs))
            o2 = copy.deepcopy(obs[j])
            o2["x"] = o2["x"] + [{"o": "scale", "p": r.choice([-1, 1]) * round(10 ** r.uniform(-1.3, -0.2), 4), "x": {"o": "prim", "g": {"k": r.choice("XYZ"), "t": [r.randrange(n)]}}}]
            obs.append(o2)
            tilted = [j, len(obs) - 1]
        nc = clients_for(r, 1, 3)
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(1, 3)):
                c = r.randrange(len(circs))
                op = {"op": "shotstat", "s": r.randrange(len(states)), "c": c, "key": r.randrange(10**6), "typed": r.random() < 0.12}
                op["o"] = r.sample(range(len(obs)), r.randint(1, len(obs)))
                if r.random() < 0.2:
                    op["o"].append(r.choice(op["o"]))
                k = r.random()
                if k < 0.3:
                    op.update(shots=r.choice([1, 2, 3]), reps=6)
                elif k < 0.5:
                    op.update(shots=r.choice([3000, r.randint(100, 5000), 10007]), reps=4)
                elif k < 0.85:
                    op.update(shots=r.choice([7, 20, 50, 64, 100, 129, 256, r.randint(4, 300)]), reps=300, jit=True)
                else:
                    op.update(shots=1, reps=200, jit=True)
                if tilted and r.random() < 0.7:
                    op["o"] = tilted if r.random() < 0.7 else tilted[::-1]
                    op.update(shots=r.choice([400, 1000, 2500]), reps=300, jit=True)
                op["mode"] = r.choice(["ad", "gpsr"])
                op["v"] = G.revalue(r, G.values_for(r, list(dict.fromkeys(G.names_of_gates(circs[c]["gates"]) + obs_names(op, obs)))), ops)
                op_common(r, op)
                G.schedule(r, op, nc, 1500)
                G.faults(r, op, 900, p=0.08)
                ops.append(op)
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "shots"}


@prop
class C09(Prop):
    id = "C09"
    guests = 0.15
    world = BigWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.pick_n(r, 3)
        names = r.sample(["w0", "w1"], r.choice([0, 0, 1]))
        st = G.Style(r, n, max_gates=r.choice([2, 3, 4]), p_rot=0.85, ctrl_rot=False, p_fixed=0.1)
        if r.random() < 0.6:
            st.p_noise = 0
        if i % 8 == 5:
            return self.many(r)
        states = [G.state(r, n, 0.25)]
        circs = [G.circuit(r, st, ("qc", "seq", "list"), lo=2, empty=0) for _ in range(r.choice([1, 2]))]
        obs = [o for o in hermitian_pool(r, n, names)]
        nc = clients_for(r, 1, 2)
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.choice([1, 1, 2])):
                c = r.randrange(len(circs))
                op = {"op": "gradstat", "s": 0, "c": c, "key": r.randrange(10**6), "typed": r.random() < 0.12}
                op["o"] = [r.randrange(len(obs))]
                if r.random() < 0.3:
                    op["o"] = r.sample(range(len(obs)), r.randint(1, len(obs)))
                op["v"] = G.values_for(r, list(dict.fromkeys(G.names_of_gates(circs[c]["gates"]) + obs_names(op, obs))), extra=0.25)
                if not op["v"]:
                    op["v"] = {"unused": 0.5}
                k = r.random()
                if k < 0.35:
                    op.update(via="bwd", shots=r.choice([11, 20, 40]), reps=600, jit=True)
                elif k < 0.7:
                    op.update(via="grad", shots=r.choice([11, 20, 40]), reps=600, jit=True)
                elif k < 0.85:
                    op.update(via="bwd", shots=r.choice([20, 40, 500]), reps=120)
                elif k < 0.93:
                    op.update(via="bwd", shots=4000, reps=4)
                else:
                    op.update(via="grad", shots=4000, reps=3)
                if r.random() < 0.3:
                    op["fresh"] = True
                elif not op.get("jit") and r.random() < 0.3:
                    op["edit"] = True
                G.schedule(r, op, nc, 3000)
                G.faults(r, op, 1500, p=0.08)
                ops.append(op)
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "shotgrad"}


    def many(self, r):
        """Many parameters, each of them once: all derivatives are independent."""
        n = r.choice([1, 2])
        names = r.sample([f"p{k}" for k in range(14)], r.choice([5, 6, 7, 9, 11]))
        gates = []
        for k in names:
            gates.append({"k": r.choice(["RX", "RY", "RX", "RY", "RZ"]), "t": [r.randrange(n)], "p": k})
            if n > 1 and r.random() < 0.4:
                t = r.randrange(2)
                gates.append({"k": "X", "t": [t], "c": [1 - t]})
        circs = [{"kind": r.choice(["seq", "qc", "list"]), "gates": gates}]
        if circs[0]["kind"] == "qc":
            circs[0]["fparams"] = []
        states = [{"kind": "product", "bits": "0" * n}]
        obs = [{"o": "add", "x": [{"o": "prim", "g": {"k": r.choice("XYZ"), "t": [0]}}] + ([{"o": "prim", "g": {"k": r.choice("XYZ"), "t": [n - 1]}}] if n > 1 else [])}]
        op = {"op": "gradstat", "s": 0, "c": 0, "key": r.randrange(10**6), "o": [0], "v": G.values_for(r, names, 0), "via": r.choice(["bwd", "bwd", "grad"]), "shots": r.choice([15, 40]), "reps": 500, "jit": True}
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": [[op]], "env": G.env(r), "flavour": "many"}


# ============================================================== C10
@prop
class C10(Prop):
    id = "C10"
    world = TwinWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.pick_n(r, 3)
        names = r.sample(["w0", "w1"], r.choice([0, 1]))
        states, circs, obs = shot_case(r, n, names, False)
        nc = clients_for(r, 1, 3)
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(2, 5)):
                c = r.randrange(len(circs))
                k = r.choice(["shots", "shots", "shotgrad", "sample", "keys", "names", "exp", "hea"])
                op = {"op": k, "s": r.randrange(len(states)), "c": c, "o": [r.randrange(len(obs)) for _ in range(r.choice([1, 2]))]}
                if k == "hea":
                    op = {"op": "hea", "q": r.choice([1, 2, 3]), "layers": 1, "v": {}}
                else:
                    op["v"] = G.values_for(r, list(dict.fromkeys(G.names_of_gates(circs[c]["gates"]) + obs_names(op, obs))))
                    op["vt"] = r.choice(["f", "j"])
                if k in ("shots", "shotgrad", "keys"):
                    op["key"] = r.randrange(10**6)
                    op["shots"] = r.choice([3, 30, 300])
                    op["mode"] = r.choice(["ad", "gpsr"])
                if k == "keys":
                    op["shots"] = 1000
                    op["how"] = r.choice(["seeds", "split", "high"])
                if k == "shotgrad":
                    op["via"] = r.choice(["grad", "bwd", "bwd"])
                    if not op["v"]:
                        op["v"] = {"unused": 0.5}
                if k == "sample":
                    op["shots"] = r.choice([5, 50, 500])
                    if r.random() < 0.2:
                        op.update(shots=1000, nshots="default")
                if k in ("shots", "shotgrad", "keys"):
                    op["typed"] = r.random() < 0.2
                    op["nokey"] = r.random() < 0.1
                if ops and r.random() < 0.25 and k != "hea" and ops[-1]["op"] != "hea":  # the same call again
                    op = {q: copy.deepcopy(x) for q, x in ops[-1].items() if q not in ("pre", "faults", "next", "hot")}
                G.schedule(r, op, nc, 900)
                G.faults(r, op, 500, p=0.06, p_nuisance=0.35)
                ops.append(op)
            if r.random() < 0.5:
                ops.insert(r.choice([0, 0, r.randrange(len(ops) + 1)]), self.warm(r, n, nc))
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "twins"}

    def warm(self, r, n, nc):
        m = r.choice([k for k in (1, 2, 3, 4, 5) if k != n])
        states, circs, obs = shot_case(r, m, [], False)
        op = {"op": "warm", "n": m, "state": states[0], "circ": circs[0], "obs": obs[0], "v": G.values_for(r, list(dict.fromkeys(G.names_of_gates(circs[0]["gates"]) + G.names_of_obs(obs[0]))))}
        op["do"] = r.sample(["sample", "shots", "run", "exp"], r.randint(1, 3))
        op["shots"] = r.choice([3, 30, 300])
        G.schedule(r, op, nc, 600)
        return op

    def execute(self, spec, stats):
        """The run as scheduled, and again without faults, one client after the other,
        with another host seed, clock and naming entropy."""
        if spec.get("solo") is None:
            first = self.once(spec, stats)
            if "harness" in first or "hang" in first or first["viol"]:
                first.pop("outputs", None)
                return first
        twin = copy.deepcopy(spec)
        twin["env"] = dict(spec["env"], share=False, tick=0, uuid="rand", uuid_seed=spec["env"]["uuid_seed"] + 1, clock=3.1e9, first=0)
        for ops in twin["clients"]:
            for op in ops:
                for k in ("pre", "faults", "next", "hot"):
                    op.pop(k, None)
                if op["op"] == "warm":
                    op["off"] = True
        import random

        random.seed(spec["env"]["uuid_seed"] + 77)
        np.random.seed(spec["env"]["uuid_seed"] % 2**31 + 5)
        s2: dict = {}
        second = self.once(twin, s2)
        stats["twin-ops"] = s2.get("ops", 0)
        viol = list(second.get("viol", ()))
        if "harness" in second or "hang" in second:
            return second
        if spec.get("solo") is None:
            a, b = first["outputs"], second["outputs"]
            for k in a:
                stats["twin-comparisons"] = stats.get("twin-comparisons", 0) + 1
                if k in b and not same_plain(a[k], b[k]):
                    c, j = map(int, k.split("."))
                    viol.append({"client": c, "op": j, "kind": spec["clients"][c][j]["op"], "class": "not-repeatable", "detail": f"under the schedule {str(a[k])[:200]}, alone {str(b[k])[:200]}"})
            # calls that are equal in all arguments
            first.pop("outputs")
            first["viol"] = viol
            first["outputs"] = b
            return first
        return second

    def once(self, spec, stats):
        w = self.world(spec, stats)
        sim = engine.Sim(spec["clients"], w.exec_op, env=spec.get("env"), stats=stats)
        w.prepare(sim)
        hs = {}

        def reseed(seed):
            engine.Sim.reseed(sim, seed)
            hs["now"] = host_state()

        sim.reseed = reseed
        hs["now"] = host_state()
        inner = w.after_op

        def after(sim_, client, i, op, res, exc):
            inner(sim_, client, i, op, res, exc)
            cur = host_state()
            if cur != hs["now"]:
                d = [k for k in cur if cur[k] != hs["now"][k]]
                w.violate(sim, client, i, op, "host-state", f"a call changed the process-wide {', '.join(d)}")
                hs["now"] = cur

        w.after_op = after
        err = sim.run(first=spec.get("env", {}).get("first", 0))
        viol = list(w.violations)
        if err is not None:
            if err[0] == "harness":
                return {"harness": err[1]}
            viol.append({"client": -1, "op": -1, "kind": "run", "class": "stuck" if err[0] == "deadlock" else err[0], "detail": err[1]})
            if err[0] == "hang":
                return {"hang": err[1], "viol": viol}
        return {"viol": viol, "digest": sim.digest(), "inter": sim.interleaving(), "steps": sim.steps, "simtime": sim.steps * 1e-3, "outputs": w.outputs}


# ============================================================== C11
@prop
class C11(Prop):
    id = "C11"
    world = BigWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.pick_n(r, 4)
        st = G.Style(r, n, max_gates=r.choice([4, 8, 14]), p_rot=0.8, p_fixed=r.choice([0, 0.2, 0.5]), p_seq=r.choice([0, 0.3]))
        st.names = r.sample(["a", "b", "B", "theta", "v_1", "v_10", "v_2", "x", "phi0", "time", "", "0", "ä"], r.choice([2, 4, 8]))
        circs = [G.circuit(r, st, ("qc", "qc", "seq", "list")) for _ in range(r.choice([2, 4]))]
        nc = clients_for(r, 1, 4)
        restarts = r.random() < 0.5
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(3, 8)):
                k = r.choice(["hea", "hea", "hea", "heause", "names", "names"] + (["restart"] if restarts else []))
                if k == "names":
                    op = {"op": "names", "c": r.randrange(len(circs)), "v": {}}
                    if r.random() < 0.3:
                        op["fresh"] = True
                    elif r.random() < 0.3:
                        op["edit"] = True
                elif k == "restart":
                    ops.append(dict({"op": "restart", "v": {}}, **({"seed": 0} if r.random() < 0.6 else {})))
                    continue
                else:
                    op = {"op": k, "q": r.choice([1, 2, 3, 4]), "layers": r.choice([0, 1, 2, 3]), "v": {}}
                    if r.random() < 0.4:
                        op["rots"] = [r.choice(["RX", "RY", "RZ", "PHASE"]) for _ in range(r.choice([1, 2, 3, 4]))]
                    if r.random() < 0.3:
                        op["prefix"] = r.choice(["v_", "w", "theta_", "", "0"])
                    if k == "heause":
                        op["q"] = r.choice([2, 3])
                        op["layers"] = 1
                        op["feature"] = r.random() < 0.5
                        op["x"] = [G.angle(r) for _ in range(op["q"] * len(op.get("rots") or [1, 1, 1]))]
                G.schedule(r, op, nc, 120, density=0.8)
                G.faults(r, op, 80, p=0.15, kinds=("interrupt",), p_nuisance=0.4)
                ops.append(op)
            clients.append(ops)
        return {"n": n, "states": [], "circs": circs, "obs": [], "clients": clients, "env": G.env(r), "flavour": "names"}


# ============================================================== C12
@prop
class C12(Prop):
    id = "C12"

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = r.choice([1, 2, 2, 3])
        st = G.Style(r, n, max_gates=r.choice([3, 4]), p_rot=0.8, ctrl_rot=False, p_fixed=0.1, p_noise=r.choice([0, 0, 0.2]))
        states = [G.state(r, n, 0.2)]
        obs = hermitian_pool(r, n, ())
        circs, trainers = [], []
        nt = r.choice([1, 1, 2])
        for _ in range(nt):
            tr = {"s": 0, "o": [r.randrange(len(obs)) for _ in range(r.choice([1, 2]))], "T": r.choice([3, 4, 6]), "lr": round(r.uniform(0.02, 0.15), 3) if r.random() < 0.55 else float(f"{10 ** r.uniform(-5, -1.7):.3g}"), "key": r.randrange(10**6)}
            tr["w"] = [round(r.uniform(-1, 1), 3) for _ in tr["o"]]
            if r.random() < 0.45:
                tr["hea"] = {"q": n, "layers": 1}
                if n == 1:
                    tr["hea"] = {"q": 2, "layers": 1}
                if r.random() < 0.5:
                    tr["hea"]["rots"] = r.sample(["RX", "RY", "RZ"], r.choice([1, 2]))
                if n == 1:
                    n = 2
                    states = [G.state(r, n, 0.2)]
                    obs = hermitian_pool(r, n, ())
                    tr["o"] = [0]
                    tr["w"] = [1.0]
                k = len(tr["hea"].get("rots") or [1, 1, 1]) * tr["hea"]["q"]
                names = [""] * k
                noisy = False
            else:
                c = G.circuit(r, st, ("qc",), lo=2, empty=0)
                for _ in range(20):
                    if G.names_of_gates(c["gates"]):
                        break
                    c = G.circuit(r, st, ("qc",), lo=2, empty=0)
                else:
                    c["gates"].append({"k": "RX", "t": [0], "p": "a"})
                c["fparams"] = []
                circs.append(c)
                tr["c"] = len(circs) - 1
                names = G.names_of_gates(c["gates"])
                noisy = R.has_noise(c["gates"])
            tr["x0"] = [round(r.uniform(-3, 3), 4) for _ in names]
            tr["mode"] = r.choice(["ad", "gpsr", "gpsr"] + ([] if noisy or is_dm(states[0]) else ["adjoint"]))
            tr["via"] = r.choice(["grad", "bwd"]) if tr["mode"] == "gpsr" else "grad"
            if tr["mode"] == "gpsr" and r.random() < 0.4 and not (tr.get("hea") and tr["via"] == "grad"):
                tr["shots"] = r.choice([50, 200])
            if not tr.get("shots") and tr["mode"] != "gpsr" and r.random() < 0.4:
                tr["jit"] = True
            trainers.append(tr)
        if any(max(t["o"]) >= len(obs) for t in trainers):
            for t in trainers:
                t["o"] = [0]
                t["w"] = [1.0]
        if not circs:
            circs.append({"kind": "qc", "gates": [{"k": "RY", "t": [0], "p": "a"}], "fparams": []})
        ne = r.choice([0, 0, 1])
        nc = nt + ne
        T = max(t["T"] for t in trainers)
        lives = []
        for life in range(r.choice([2, 3, 4])):
            clients = []
            for t in range(nt):
                ops = []
                for _ in range(T + 2):
                    op = {"op": "step", "tr": t, "v": {}}
                    G.schedule(r, op, nc, 2500)
                    G.faults(r, op, 1500, p=0.12, p_nuisance=0.15)
                    ops.append(op)
                clients.append(ops)
            for _ in range(ne):
                ops = []
                for _ in range(3):
                    c = r.randrange(len(circs))
                    op = {"op": "exp", "s": 0, "c": c, "o": [r.randrange(len(obs))], "v": G.values_for(r, G.names_of_gates(circs[c]["gates"])), "mode": "ad"}
                    G.schedule(r, op, nc, 600)
                    ops.append(op)
                clients.append(ops)
            # where this life ends
            who = r.randrange(nt)
            j = r.randrange(max(1, min(T, 3)))
            if r.random() < 0.3:
                clients[who][j]["torn"] = round(r.random(), 2)
            else:
                clients[who][j].setdefault("faults", []).append(["crash", G.log_uniform(r, 3000) if r.random() < 0.5 else r.randint(1, 2500)])
            lives.append({"clients": clients, "env": G.env(r)})
        # the last life has no faults: the job has to finish
        clients = [[{"op": "step", "tr": t, "v": {}} for _ in range(T + 1)] for t in range(nt)]
        lives.append({"clients": clients, "env": G.env(r)})
        return {"n": n, "states": states, "circs": circs, "obs": obs, "trainers": trainers, "lives": lives, "clients": [[{"op": "lives"}]], "flavour": "training"}

    def live(self, spec, lives, stats):
        disk = None
        out = {"viol": [], "digest": "", "steps": 0, "inter": ""}
        w = None
        dig = []
        for k, life in enumerate(lives):
            w = TrainWorld(spec, stats, disk)
            disk = w.disk
            sim = engine.Sim(life["clients"], w.exec_op, env=life["env"], stats=stats)
            w.prepare(sim)
            err = sim.run(first=life["env"].get("first", 0))
            dig.append(sim.digest())
            out["steps"] += sim.steps
            out["inter"] += sim.interleaving()[:6]
            for v in w.violations:
                out["viol"].append(dict(v, life=k))
            if err is not None:
                if err[0] == "harness":
                    return {"harness": err[1]}, None
                if err[0] == "crash":
                    stats["lives-crashed"] = stats.get("lives-crashed", 0) + 1
                    continue
                out["viol"].append({"client": -1, "op": -1, "kind": "run", "class": "stuck" if err[0] == "deadlock" else err[0], "detail": err[1], "life": k})
                if err[0] == "hang":
                    out["hang"] = err[1]
                    return out, None
        out["digest"] = "-".join(d[:8] for d in dig)
        out["simtime"] = out["steps"] * 1e-3
        return out, disk

    def execute(self, spec, stats):
        import json

        out, disk = self.live(spec, spec["lives"], stats)
        if disk is None:
            return out
        ends = {}
        for t, tr in enumerate(spec["trainers"]):
            raw = disk.read(f"ckpt-{t}")
            if raw is None:
                out["viol"].append({"client": t, "op": -1, "kind": "train", "class": "no-progress", "detail": "no checkpoint after the last life"})
                continue
            d = json.loads(raw)
            x = [float.fromhex(y) for y in d["x"]]
            ends[t] = (x, d["loss"])
            if d["step"] != tr["T"]:
                out["viol"].append({"client": t, "op": -1, "kind": "train", "class": "no-progress", "detail": f"{d['step']} of {tr['T']} steps"})
        if out["viol"]:
            return out
        if any(tr.get("shots") for tr in spec["trainers"]):
            alone = {"clients": [[{"op": "step", "tr": t, "v": {}} for _ in range(tr["T"])] for t, tr in enumerate(spec["trainers"])], "env": {"uuid": "rand", "uuid_seed": 99, "clock": 5.0, "first": 0}}
            o2, d2 = self.live(spec, [alone], {})
            if d2 is None or o2["viol"]:
                return o2
        for t, tr in enumerate(spec["trainers"]):
            x, loss = ends[t]
            stats["trajectories"] = stats.get("trajectories", 0) + 1
            if tr.get("shots"):
                d = json.loads(d2.read(f"ckpt-{t}"))
                x2, l2 = [float.fromhex(y) for y in d["x"]], d["loss"]
                tol, what = 1e-9, "the uninterrupted job"
            else:
                x2, l2 = reference_training(spec, tr, spec["n"])
                tol, what = 1e-8, "the model"
            for name, a, b in (("losses", loss, l2), ("parameters", x, x2)):
                if len(a) != len(b) or float(np.max(np.abs(np.array(a) - np.array(b)))) > tol:
                    out["viol"].append({"client": t, "op": -1, "kind": "train", "class": "trajectory", "detail": f"{name} {np.round(a, 6).tolist()} but {what} has {np.round(b, 6).tolist()}"})
                    break
        out["outputs"] = {str(t): [ends[t][0], ends[t][1]] for t in ends}
        return out


# ============================================================== C13
@prop
class C13(Prop):
    id = "C13"
    guests = 0.25
    world = BigWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.wide(r, i, G.pick_n(r, 4))
        st = G.Style(r, n, max_gates=r.choice([3, 5, 8]), p_noise=r.choice([0, 0.2, 0.5]))
        if n > 4:
            st.max_gates, st.p_noise = 4, r.choice([0, 0, 0.1])
        states = [G.state(r, n, 0.4 if n < 5 else 0.15) for _ in range(3)]
        circs = [G.circuit(r, st, ("qc", "seq", "list")) for _ in range(r.choice([2, 3]))]
        if n > 1 and r.random() < 0.15:
            G.add_ham(r, n, circs)
        G.variants(r, circs, n)
        obs = [G.observable(r, n) for _ in range(2)]
        nc = clients_for(r, 1, 3)
        slow = i % 10 == 7  # many tiny steps that add up
        if slow:
            states = [{"kind": "product", "bits": "".join(r.choice("01") for _ in range(n))} for _ in range(2)] + states[2:]
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(2, 4) if slow else r.randint(3, 9)):
                c = r.randrange(len(circs))
                slot = r.randrange(2)
                if r.random() < 0.25:
                    op = {"op": "regread", "r": slot, "s": r.randrange(3), "o": [r.randrange(2)], "what": r.choice(["sample", "exp", "probs"]), "shots": r.choice([10, 300]), "v": {}}
                else:
                    op = {"op": "reg", "r": slot, "c": c, "s": r.randrange(3), "times": r.choice([1, 1, 2, 3, 6]) if r.random() < 0.95 else 20, "v": G.values_for(r, G.names_of_gates(circs[c]["gates"]))}
                    op["vt"] = r.choice(["f", "np", "j"])
                    if r.random() < 0.3:
                        op["group"] = True
                    if slow:
                        tiny = 10 ** r.uniform(-7, -2)
                        op["v"] = {k: r.choice([-1, 1, 1]) * tiny for k in op["v"]}
                        op["times"] = r.choice([5, 20, 40])
                    if r.random() < 0.05:
                        op["reset"] = True
                    op_common(r, op, 0.1)
                    if r.random() < 0.3:
                        op["try"] = True
                    old = [x for x in ops if x["op"] == "reg"]
                    if old and r.random() < 0.35:  # the same step, with other values
                        for q in ("r", "c", "s", "group", "inplace", "edit", "fresh"):
                            op.pop(q, None)
                            if q in old[-1]:
                                op[q] = old[-1][q]
                        op["v"] = G.revalue(r, G.values_for(r, G.names_of_gates(circs[op["c"]]["gates"])), old, 0.7)
                        op["times"] = r.choice([1, 1, old[-1]["times"]])
                G.schedule(r, op, nc, 1200)
                G.faults(r, op, 600, p=0.12)
                ops.append(op)
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "registers"}

from . import props3  # noqa: E402,F401
