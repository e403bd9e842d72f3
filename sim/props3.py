"""C14: matrix forms, conversions, state utilities."""
from __future__ import annotations

import copy

from . import gen as G, refmodel as R
from .props import Prop, clients_for, prop
from .world3 import FormsWorld


@prop
class C14(Prop):
    id = "C14"
    guests = 0.25
    world = FormsWorld

    def spec(self, i):
        r = G.rng_of(self.seed, self.id, i)
        n = G.wide(r, i, G.pick_n(r, 4), 12)
        race = i % 4 == 1  # several threads ask for matrices of controlled gates, preempted where they share data
        if race:
            n = max(n, 2)
        st = G.Style(r, n, max_gates=r.choice([2, 4, 6]), p_noise=r.choice([0, 0, 0.3]))
        if race:
            st.p_ctrl = 0.7
        states = [G.state(r, n, 0) for _ in range(3)]
        if r.random() < 0.5:
            states[1] = dict(states[0])
        circs = [G.circuit(r, st, ("qc", "qc", "seq", "list"), empty=0) for _ in range(r.choice([1, 2, 3]))]
        ham = None
        if n > 1 and r.random() < 0.35:
            k = r.choice([1, 2, 2, min(3, n)])
            t = r.sample(range(n), k)
            rest = [q for q in range(n) if q not in t]
            ham = [r.randrange(10**6), k]
            c = r.choice(circs)
            g = {"k": "HAM", "t": t, "p": "time_evolution", "h": ham[0], "tup": True}
            if rest and r.random() < 0.4:
                g["c"] = r.sample(rest, 1)
            c["gates"].insert(r.randrange(len(c["gates"]) + 1), g)
        names = r.sample(["w0", "w1"], r.choice([0, 1, 2]))
        obs = [G.observable(r, n, names, hermitian=r.random() < 0.5) for _ in range(r.choice([1, 2]))]
        nc = r.choice([2, 3]) if race else clients_for(r, 1, 3)
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(r.randint(2, 7)):
                op = self.op(r, n, states, circs, obs)
                if op.get("c") is not None and any(g["k"] == "HAM" for g in R.flat_gates(circs[op["c"]]["gates"])):
                    op["h"] = ham
                    op.pop("sparse", None)
                if r.random() < 0.25:
                    op["fresh"] = True
                if r.random() < 0.3:
                    op["inplace"] = True
                G.schedule(r, op, nc, 300)
                if race and op["op"] in ("matrix", "bare", "convert"):
                    op["hot"] = [[r.randint(1, 6), "pre", r.randrange(nc)] for _ in range(r.choice([1, 2, 4]))]
                G.faults(r, op, 200, p=0.1)
                ops.append(op)
            clients.append(ops)
        return {"n": n, "states": states, "circs": circs, "obs": obs, "clients": clients, "env": G.env(r), "flavour": "forms"}

    def op(self, r, n, states, circs, obs):
        k = r.choice(["matrix", "matrix", "matrix", "matrix", "dagger", "convert", "overlap", "mkstate", "structure", "act", "bare"])
        if k == "mkstate":
            m = r.choice([1, 2, 3, 4, 6])
            op = {"op": k, "n": m, "kind": r.choice(["product", "zero", "uniform", "random"]), "v": {}}
            if op["kind"] == "product":
                op["bits"] = "".join(r.choice("01") for _ in range(m))
            op["sparse"] = r.random() < 0.3
            return op
        if k == "bare":
            g = copy.deepcopy(r.choice(R.flat_gates(r.choice(circs)["gates"])))
            if g["k"] == "HAM":
                g = {"k": "H", "t": [0]}
            qs = sorted(set(g["t"]) | set(g.get("c") or ()))
            g["t"] = [qs.index(q) for q in g["t"]]
            if g.get("c"):
                g["c"] = [qs.index(q) for q in g["c"]]
            return {"op": k, "gate": g, "v": G.values_for(r, G.names_of_gates([g])), "kw": r.random() < 0.5, "seq": r.random() < 0.3}
        if k == "overlap":
            return {"op": k, "pair": [r.randrange(3), r.randrange(3)], "phase": G.angle(r), "sparse": r.random() < 0.2, "v": {}}
        c = r.randrange(len(circs))
        op = {"op": k, "c": c, "on": r.choice(["circ", "circ", "gate", "obs"]), "s": r.randrange(3), "g": r.randrange(20), "v": {}}
        noisy = R.has_noise(circs[c]["gates"])
        if k in ("matrix", "structure") and r.random() < 0.3:
            op["labels"] = r.sample(range(r.choice([8, 12, 12, 16])), n)
        if k == "structure":
            return op
        if k == "dagger":
            op["on"] = "gate"
        if k == "act":
            op["on"] = "obs"
        if op["on"] == "obs":
            o = r.randrange(len(obs))
            op["o"] = [o]
            op.pop("c")
            if r.random() < 0.4:
                op["term"] = r.randrange(len(obs[o]["x"]))
            op["v"] = G.values_for(r, G.names_of_obs(obs[o]))
        else:
            op["v"] = G.values_for(r, G.names_of_gates(circs[c]["gates"]))
            if noisy and k == "matrix":
                op["op"] = "convert"
                op.pop("labels", None)
        op["vt"] = r.choice(["f", "j", "j", "np"])
        if op["op"] == "matrix":
            if r.random() < 0.6:
                op["more"] = r.sample(range(n), r.randint(0, n))
                op["rev"] = r.random() < 0.2
            q = r.random()
            if q < 0.25:
                op["sparse"] = r.choice([True, True, "twice"])
                op["vt"] = r.choice(["f", "j"])
            elif q < 0.4:
                op["jit"] = True
        return op
