"""Real horqrux objects built from specs, and the operations clients perform on
them.  Everything that touches horqrux goes through its public API; what it should
answer comes from refmodel."""
from __future__ import annotations

import json

import numpy as np

from . import engine, refmodel as R


def value_of(x, vtype):
    import jax.numpy as jnp

    if vtype == "j":
        return jnp.array(x)
    if vtype == "np":
        return np.float64(x)
    if vtype == "nd":
        return np.array(x)
    return x if isinstance(x, int) else float(x)


def key_of(op):
    import jax

    return jax.random.key(op["key"]) if op.get("typed") else jax.random.PRNGKey(op["key"])


class Lib:
    """Handles to one import of horqrux."""

    def __init__(self, share=False):
        engine.fresh_import()
        self.memo = {} if share else None
        import sys

        m = sys.modules
        self.api = m["horqrux.api"]
        self.apply = m["horqrux.apply"]
        self.circuit = m["horqrux.circuit"]
        self.comp = m["horqrux.composite"]
        self.prim = m["horqrux.primitives"]
        self.noise = m["horqrux.noise"]
        self.analog = m["horqrux.analog"]
        self.ops = m["horqrux.utils.operator_utils"]
        self.conv = m["horqrux.utils.conversion"]
        self.gpsr = m["horqrux.differentiation.gpsr"]
        self.adj = m["horqrux.differentiation.adjoint"]
        self.mat = m["horqrux.matrices"]

    # ------------------------------------------------------------ builders
    def shared(self, kind, spec, make):
        """Some applications use one object wherever they need an equal one."""
        if self.memo is None:
            return make()
        k = kind + json.dumps(spec, sort_keys=True)
        if k not in self.memo:
            self.memo[k] = make()
        return self.memo[k]

    def noise_of(self, spec):
        if not spec:
            return None
        return self.shared("noise", spec, lambda: self.new_noise(spec))

    def new_noise(self, spec):
        T = self.noise.DigitalNoiseType
        I = self.noise.DigitalNoiseInstance
        out = []
        for kind, p in spec:
            out.append(I(T(kind), tuple(p) if isinstance(p, (list, tuple)) else p))
        return tuple(out)

    def gate(self, g, sparse=False):
        if "seq" in g:
            return self.comp.OpSequence([self.gate(x, sparse) for x in g["seq"]])
        return self.shared(f"gate{sparse}", g, lambda: self.new_gate(g, sparse))

    def new_gate(self, g, sparse):
        k = g["k"]
        t = g["t"][0] if len(g["t"]) == 1 and not g.get("tup") else tuple(g["t"])
        c = g.get("c") or ()
        if not c:
            c = (None,)
        elif len(c) == 1 and not g.get("tup"):
            c = c[0]
        else:
            c = tuple(c)
        if g.get("npi"):  # qubits as they come out of an array
            t = np.int64(t) if isinstance(t, int) else tuple(np.int64(q) for q in t)
            c = np.int64(c) if isinstance(c, int) else c
        if k == "HAM":
            return self.analog.HamiltonianEvolution(tuple(g["t"]), c)
        kw = {}
        noise = self.noise_of(g.get("noise"))
        if noise is not None:
            kw["noise"] = noise
        if sparse:
            kw["sparse"] = True
        fn = getattr(self.prim, k)
        if k in R.PARAMETRIC:
            out = fn(g["p"], t, c, **kw)
            if g.get("sh"):  # what a gate shifted by GPSR looks like
                out = type(out)(out.generator_name, t, c, noise, sparse, g["p"], g["sh"])
            return out
        return fn(t, c, **kw)

    def circ(self, c, n):
        sp = c.get("sparse", False)
        gates = [self.gate(g, sp) for g in c["gates"]]
        k = c.get("kind", "seq")
        if k == "qc":
            return self.circuit.QuantumCircuit(n, gates, list(c.get("fparams", ())))
        if k == "seq":
            return self.comp.OpSequence(gates)
        if k == "prim":
            return gates[0]
        return gates

    def node(self, o, sparse=False):
        k = o["o"]
        if k == "prim":
            return self.gate(o["g"], sparse)
        if k == "seq":
            return self.comp.OpSequence([self.node(x, sparse) for x in o["x"]])
        if k == "scale":
            return self.comp.Scale(self.node(o["x"], sparse), o["p"])
        if k == "add":
            return self.comp.Add([self.node(x, sparse) for x in o["x"]])
        raise ValueError(k)

    def obs(self, o, sparse=False):
        """The root of an observable spec is an "add" node."""
        return self.comp.Observable([self.node(x, sparse) for x in o["x"]])

    def state(self, s, n):
        import jax.numpy as jnp

        arr, dm = R.state_array(s, n)
        if s["kind"] == "product" and not s.get("raw"):
            out = self.ops.product_state(s["bits"], s.get("sparse", False))
        elif s["kind"] == "uniform" and not s.get("raw"):
            out = self.ops.uniform_state(n, s.get("sparse", False))
        else:
            if s.get("real") and not s.get("sparse") and not arr.imag.any():
                arr = arr.real
            out = jnp.array(arr.reshape((2,) * (n if not dm else 2 * n)))
            if s.get("sparse"):
                out = self.conv.to_sparse(out)
            if dm:
                return self.ops.DensityMatrix(out)
        if s.get("dm"):
            out = self.ops.density_mat(out)
        return out

    # ------------------------------------------------------------ results
    def to_numpy(self, x):
        """(array, is_dm) of a returned state."""
        from jax.experimental.sparse import BCOO

        if type(x).__name__ == "DensityMatrix":
            a = np.asarray(x.array)
            d = int(round(a.size**0.5))
            return a.reshape(d, d), True
        if isinstance(x, BCOO):
            x = x.todense()
        return np.asarray(x).reshape(-1), False


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False, f"shape {a.shape} instead of {b.shape}"
    if a.size == 0:
        return True, ""
    if not np.all(np.isfinite(a)):
        return False, f"not finite: {np.array2string(a.ravel()[:8])}"
    err = float(np.max(np.abs(a - b)))
    if err > tol:
        return False, f"differs by {err:.3g}: got {np.array2string(a.ravel()[:8], precision=6)} expected {np.array2string(b.ravel()[:8], precision=6)}"
    return True, ""


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(f"{cls}: {detail}")
        self.cls, self.detail = cls, detail


class World:
    """One run's shared pool of objects and its clients' private ones."""

    TOL = 1e-9
    GTOL = 2e-7

    def __init__(self, spec, stats, host=None):
        self.spec = spec
        self.n = spec["n"]
        self.host = host
        if any(g["k"] == "HAM" for c in spec.get("circs", ()) for g in R.flat_gates(c["gates"])):
            # (the matrix exponential of JAX is off by up to 1e-7 for large times)
            self.TOL, self.GTOL = 1e-6, 1e-5
        self.stats = stats
        self.violations = host.violations if host else []
        self.share = bool(spec.get("share", spec.get("env", {}).get("share")))
        self.lib = host.lib if host else Lib(self.share)
        self.build()
        self.cvals = {}
        self.who = None
        self.jits = {}
        self.regs = {}
        # other clients of the same process, with objects for another register size
        self.guest = type(self)(spec["guest"], stats, self) if spec.get("guest") else None

    def build(self):
        sp = self.spec
        L = self.lib
        self.own_objects = {}
        if self.share and not self.host:
            L.memo.clear()
        self.states = [L.state(s, self.n) for s in sp.get("states", ())]
        self.circs = [L.circ(c, self.n) for c in sp.get("circs", ())]
        self.obss = [L.obs(o, o.get("sparse", False)) for o in sp.get("obs", ())]

    # ---------------------------------------------------------------- access
    def get_state(self, op):
        s = self.spec["states"][op["s"]]
        x = self.states[op["s"]]
        if op.get("edit") and type(x).__name__ == "DensityMatrix":
            mine = self.edited("state", lambda: self.lib.ops.DensityMatrix(x.array))
            mine.array = x.array
            return mine, s
        return (self.lib.state(s, self.n) if op.get("fresh") else x), s

    def edited(self, name, make):
        """Objects that a client fills anew in place before each of its "edit" calls."""
        k = (self.who, name)
        if k not in self.own_objects:
            self.own_objects[k] = make()
        return self.own_objects[k]

    def get_circ(self, op):
        c = self.spec["circs"][op["c"]]
        x = self.circs[op["c"]]
        if op.get("edit") and c.get("kind", "seq") != "prim":
            self.stats["edited-in-place"] = self.stats.get("edited-in-place", 0) + 1
            mine = self.edited(c.get("kind", "seq"), lambda: self.lib.circ(c, self.n))
            if isinstance(x, list):
                mine[:] = x
            else:
                mine.operations[:] = x.operations
                if c.get("kind") == "qc":
                    mine.fparams[:] = x.fparams
            return mine, c
        return (self.lib.circ(c, self.n) if op.get("fresh") else x), c

    def get_obs(self, op):
        specs = [self.spec["obs"][i] for i in op["o"]]
        if op.get("edit"):
            mine = self.edited("observables", list)
            for j, i in enumerate(op["o"]):
                o = self.edited(f"observable{j}", lambda: self.lib.obs(specs[j], specs[j].get("sparse", False)))
                o.operations[:] = self.obss[i].operations
                if j == len(mine):
                    mine.append(o)
                mine[j] = o
            del mine[len(op["o"]):]
            return mine, specs
        if op.get("fresh"):
            return [self.lib.obs(o, o.get("sparse", False)) for o in specs], specs
        return [self.obss[i] for i in op["o"]], specs

    def get_values(self, op, client, extra=None):
        v = {k: value_of(x, op.get("vt", "f")) for k, x in op["v"].items()}
        if extra is None and "c" in op:
            extra = self.ham_values(self.spec["circs"][op["c"]], op)
        if extra:
            v.update(extra)
        if op.get("inplace"):
            d = self.cvals.setdefault(client.idx, {})
            d.clear()
            d.update(v)
            return d
        return v

    def own(self, name, x):
        """An object that belongs to the caller."""
        return x

    def ham_values(self, circ_spec, op):
        """HamiltonianEvolution reads fixed names."""
        out = {}
        for g in R.flat_gates(circ_spec["gates"]):
            if g["k"] == "HAM":
                import jax.numpy as jnp

                out["hamiltonian"] = jnp.array(R.herm_from(g["h"], len(g["t"])))
        return out

    # ---------------------------------------------------------------- driver
    def exec_op(self, sim, client, i, op):
        if op.get("guest") and self.guest:
            sim.count("guest-ops")
            return self.guest.exec_op(sim, client, i, op)
        engine.set_fold(None)
        sim.count("ops")
        sim.count("op:" + op["op"])
        fn = getattr(self, "op_" + op["op"])
        trace = op.get("trace")
        if trace:
            sim.trace_lock.acquire()
        exc = res = None
        sim.event("start", client.idx, i)
        prep = None
        try:
            self.who = client.idx
            prep = fn(op, client)  # -> (thunk, check)
            client.arm(i, op)
            try:
                res = prep[0]()
            finally:
                client.disarm()
                if trace:
                    sim.trace_lock.release()
        except engine.SimAbort:
            sim.event("crash", client.idx, i)
            raise
        except engine.Deadlock as e:
            self.violate(sim, client, i, op, "stuck", str(e))
            return
        except BaseException as e:
            if prep is None:
                raise
            exc = e
        injected = [f for f in client.fired if f in ("interrupt", "oom", "oom_xla")]
        sim.count("lines", client.lines)
        sim.event("end", client.idx, i, type(exc).__name__ if exc is not None else "ok", client.lines)
        if exc is not None:
            if injected:
                sim.count("failed-by-fault")
            elif op.get("err"):
                names = [t.__name__ for t in type(exc).__mro__]
                if not any(e in names for e in op["err"]):
                    self.violate(sim, client, i, op, "wrong-error", f"{type(exc).__name__}: {exc} instead of {op['err']}")
            else:
                import traceback

                tb = traceback.extract_tb(exc.__traceback__)
                loc = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb][-4:]
                self.violate(sim, client, i, op, "exception", f"{type(exc).__name__}: {str(exc)[:300]} at {loc}")
        else:
            if op.get("err"):
                self.violate(sim, client, i, op, "no-error", f"returned instead of raising {op['err']}")
            else:
                try:
                    prep[1](res)
                except Violation as e:
                    self.violate(sim, client, i, op, e.cls, e.detail)
            if injected:
                sim.count("survived-fault")
        self.after_op(sim, client, i, op, res, exc)
        # exceptions keep frames, and with them objects, alive
        exc = None

    def after_op(self, sim, client, i, op, res, exc):
        pass

    def violate(self, sim, client, i, op, cls, detail):
        sim.event("VIOLATION", client.idx, i, cls)
        self.violations.append({"client": client.idx, "op": i, "kind": op["op"], "class": cls, "detail": detail})

    def need(self, ok, cls, detail=""):
        if not ok:
            raise Violation(cls, detail)

    def same(self, a, b, tol, cls, what=""):
        ok, d = close(a, b, tol)
        if not ok:
            raise Violation(cls, (what + " " if what else "") + d)

    # ---------------------------------------------------------------- states
    def check_state(self, res, want, tol=None, cls="wrong-state"):
        got, dm = self.lib.to_numpy(res)
        self.need(dm == want[1], cls, f"{'density matrix' if dm else 'state vector'} returned")
        self.same(got, want[0], tol or self.TOL, cls)

    def ref_state(self, sspec, cspec, values, dagger=False):
        arr, dm = R.state_array(sspec, self.n)
        return R.evolve(arr, dm, self.n, cspec["gates"], values, dagger)

    def call_run(self, op, circ, state, values):
        L = self.lib
        via = op.get("via", "run")
        if via == "run":
            return L.api.run(circ, state) if op.get("default") else L.api.run(circ, state, values)
        if via == "call":
            return circ(state) if op.get("default") else circ(state, values)
        if via == "steps":
            for g in circ if not isinstance(circ, list) else list(circ):
                state = g(state, values)
            return state
        ot = L.ops.OperationType.DAGGER if op.get("dagger") else L.ops.OperationType.UNITARY
        gates = circ if isinstance(circ, list) else self.own("gates", list(iter(circ)))
        if via == "apply1":
            for g in gates:
                state = L.apply.apply_gates(state, g, values, ot)
            return state
        return L.apply.apply_gates(
            state, gates, values, ot, group_gates=op.get("group", False), merge_ops=op.get("merge", True)
        )

    def op_run(self, op, client):
        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        values = self.get_values(op, client)

        def check(res):
            self.check_state(res, self.ref_state(ss, cs, op["v"], op.get("dagger", False)))

        return (lambda: self.call_run(op, circ, state, values)), check

    # ---------------------------------------------------------------- expectations
    def nested(self, op, values):
        if not op.get("nested"):
            return values
        return self.own("nested values", {"circuit": values, "observables": {k: value_of(x, op.get("vt", "f")) for k, x in op["vo"].items()}})

    def op_exp(self, op, client):
        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, os_ = self.get_obs(op)
        L = self.lib
        values = self.nested(op, self.get_values(op, client))
        mode = op.get("mode", "ad")
        if not op.get("strmode"):
            mode = L.ops.DiffMode(mode)
        vo = op.get("vo") if op.get("nested") else None

        def call():
            if op.get("via") == "obs":
                out = L.api.run(circ, state, values)
                return [o(out, values) for o in obs]
            if op.get("default"):
                return L.api.expectation(state, circ, obs, diff_mode=mode)
            return L.api.expectation(state, circ, obs, values, mode)

        def check(res):
            want = R.expectations(ss, self.n, cs["gates"], os_, op["v"], vo)
            if hasattr(res, "todense"):
                res = res.todense()
            if isinstance(res, list):
                res = [r.todense() if hasattr(r, "todense") else r for r in res]
            self.same(np.asarray(res, dtype=float).reshape(-1), want, self.TOL, "wrong-expectation")

        return call, check

    # ---------------------------------------------------------------- gradients
    def f_ref(self, ss, cs, os_, w, vo=None):
        def f(v):
            return float(np.dot(w, R.expectations(ss, self.n, cs["gates"], os_, v, vo)))

        return f

    def op_grad(self, op, client):
        import jax
        import jax.numpy as jnp

        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, os_ = self.get_obs(op)
        L = self.lib
        values = self.get_values(dict(op, vt="j"), client, {})
        w = np.array(op.get("w") or [1.0] * len(obs))
        mode = L.ops.DiffMode(op.get("mode", "ad"))
        via = op.get("via", "grad")
        names = list(op["v"])
        ham = self.ham_values(cs, op)

        def f(v):
            return jnp.dot(jnp.array(w), fvec(v).reshape(-1))

        def fvec(v):
            return L.api.expectation(state, circ, obs, {**v, **ham} if ham else v, mode)

        gates = circ if isinstance(circ, list) else self.own("gates", list(iter(circ)))

        def call():
            if via == "grad":
                return (jax.jit(jax.grad(f)) if op.get("jit") else jax.grad(f))(values)
            if via == "vag":
                return (jax.jit(jax.value_and_grad(f)) if op.get("jit") else jax.value_and_grad(f))(values)
            if via == "jac":
                return jax.jacobian(fvec)(values)
            if via == "jvp":
                tangent = {k: jnp.array(t) for k, t in zip(names, op["t"])}
                return jax.jvp(f, (values,), (tangent,))
            if via == "bwd":
                g = L.gpsr.analytical_gpsr_bwd
                return (jax.jit(g) if op.get("jit") else g)(state, gates, obs, values)
            if via == "hess":
                return jax.hessian(f)(values)
            raise ValueError(via)

        def check(res):
            ref = self.f_ref(ss, cs, os_, w)
            if via in ("grad", "vag", "jvp"):
                if via == "vag":
                    self.same(float(res[0]), ref(op["v"]), self.TOL, "wrong-value")
                    res = res[1]
                want = R.gradient(ref, op["v"])
                if via == "jvp":
                    self.same(float(res[0]), ref(op["v"]), self.TOL, "wrong-value")
                    self.same(float(res[1]), sum(want[k] * t for k, t in zip(names, op["t"])), self.GTOL, "wrong-gradient")
                    return
                self.need(set(res) == set(names), "wrong-gradient", f"names {sorted(res)}")
                self.same([float(res[k]) for k in names], [want[k] for k in names], self.GTOL, "wrong-gradient", str(names))
            elif via == "jac":
                self.need(set(res) == set(names), "wrong-gradient", f"names {sorted(res)}")
                for j in range(len(os_)):
                    e = np.zeros(len(os_))
                    e[j] = 1
                    want = R.gradient(self.f_ref(ss, cs, os_, e), op["v"])
                    self.same([float(np.asarray(res[k]).reshape(-1)[j]) for k in names], [want[k] for k in names], self.GTOL, "wrong-gradient", f"observable {j} {names}")
            elif via == "bwd":
                want = R.gradient(self.f_ref(ss, cs, os_, np.ones(len(os_))), op["v"])
                order = sorted(names) if op.get("jit") else names
                self.same(np.asarray(res).reshape(-1), [want[k] for k in order], self.GTOL, "wrong-gradient", str(order))
            elif via == "hess":
                for a in names:
                    for b in names:
                        self.same(float(res[a][b]), R.hessian(ref, op["v"], a, b), 5e-6, "wrong-hessian", f"{a},{b}")

        return call, check

    # ---------------------------------------------------------------- hooks of subclasses
    def prepare(self, sim):
        self.sim = sim
        if self.guest:
            self.guest.prepare(sim)

    def finish(self, sim):
        return []

    # ---------------------------------------------------------------- errors
    def op_bad(self, op, client):
        """Calls that have to be refused."""
        L = self.lib
        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, _ = self.get_obs(op)
        values = {**{k: float(x) for k, x in op["v"].items()}, **self.ham_values(cs, op)}
        seq = circ if not isinstance(circ, list) else L.comp.OpSequence(circ)
        w = op["what"]
        P = L.prim

        def call():
            pick = op.get("pick", 0)
            if w == "shots0":
                return L.api.sample(state, seq, values, op["amount"] if pick % 3 == 2 else 0)
            if w == "shots-":
                m = L.ops.DiffMode(op.get("mode") if op.get("mode") in ("ad", "gpsr") else "ad")
                return L.api.expectation(state, seq, obs, values, m, n_shots=op["amount"])
            if w == "adjoint_shots":
                if isinstance(state, L.ops.DensityMatrix) or R.has_noise(cs["gates"]):
                    return L.api.expectation(L.ops.zero_state(1), L.comp.OpSequence([P.X(0)]), [L.comp.Observable([P.Z(0)])], {}, "adjoint", op["amount"])
                return L.api.expectation(state, seq, obs, values, L.ops.DiffMode.ADJOINT, n_shots=-op["amount"] if pick % 2 else op["amount"])
            if w == "outside":
                return self.outside(pick, self.spec["n"], state, seq, values)
            if w == "type":
                f = [L.conv.to_sparse, L.conv.to_dense, L.ops.num_qubits, L.ops.probabilities][pick % 4]
                return f([None, "01", 3.5, {}][pick // 4 % 4])
            if w == "omit":
                return self.call_with(op["sub"], state, seq, obs, {k: x for k, x in values.items() if k != op["name"]})
            if w == "missing":
                g = L.comp.OpSequence(list(iter(seq)) + [P.RX("not_given", 0)])
                return L.api.run(g, state, values)
            if w == "missing_obs":
                o = L.comp.Observable([L.comp.Scale(P.Z(0), "not_given")])
                return L.api.expectation(state, seq, [o], values)
            if w == "mode":
                return L.api.expectation(state, seq, obs, values, ["finite_difference", "AD", "", None, "gpsr "][pick % 5], *([5] if pick % 2 else []))
            if w == "noise":
                g = P.H(0, noise=L.noise_of([[op["noise"][0], float("nan")] if op["noise"][1] == "nan" else op["noise"]]))
                return L.api.run(L.comp.OpSequence(list(iter(seq)) + [g]), state, values)
            if w == "adjoint_dm":
                return L.api.expectation(L.ops.density_mat(state), seq, obs, values, L.ops.DiffMode.ADJOINT)
            if w == "support":
                two = [P.X(0), P.Y(1)]
                f = [L.comp.OpSequence(two), L.comp.Observable(two), L.comp.Add(two), L.comp.Scale(two, 2.0), P.X(0, (1,)), L.circuit.QuantumCircuit(2, two), L.comp.Observable([L.comp.Scale(P.Z(1), 0.5)])][pick % 7]
                return f.tensor({}, (0,) if pick % 2 else (0, 2))
            if w == "sparse_noise":
                g = P.X(0, sparse=True, noise=L.noise_of([["BitFlip", 0.1]]))
                return L.api.run(L.comp.OpSequence([g]), L.ops.zero_state(2, sparse=True), {})
            raise ValueError(w)

        return call, (lambda res: None)

    def outside(self, pick, n, state, seq, values):
        """Something on a qubit the register does not have."""
        L, P = self.lib, self.lib.prim
        far = n + pick // 16 % 2
        if pick % 2:
            o = [P.Z(far), L.comp.OpSequence([P.Z(0), P.X(far)]), L.comp.Scale(P.Y(far), 0.5), P.X(0, (far,)) if n > 0 else P.Z(far)][pick // 2 % 4]
            shots = {"n_shots": 4} if pick // 8 % 2 else {}
            return L.api.expectation(state, seq, [L.comp.Observable([o])], values, "gpsr" if pick // 64 % 2 else "ad", **shots)
        g = [P.X(far), P.RX(0.4, far), P.SWAP(0, far), P.X(0, (far,))][pick // 2 % 4]
        c = L.comp.OpSequence(list(iter(seq)) + [g])
        if pick // 8 % 2:
            return L.api.sample(state, c, values, 4)
        return L.api.run(c, state, values)

    def call_with(self, sub, state, seq, obs, values):
        import jax
        import jax.numpy as jnp

        L = self.lib
        D = L.ops.DiffMode
        gates = list(iter(seq))
        key = jax.random.PRNGKey(1)
        if sub == "run":
            return L.api.run(seq, state, values)
        if sub == "apply":
            return L.apply.apply_gates(state, gates, values, group_gates=True)
        if sub == "sample":
            return L.api.sample(state, seq, values, 5)
        if sub in ("ad", "gpsr", "adjoint"):
            return L.api.expectation(state, seq, obs, values, D(sub))
        if sub in ("shots-ad", "shots-gpsr"):
            return L.api.expectation(state, seq, obs, values, D(sub[6:]), n_shots=3, key=key)
        values = {k: jnp.array(x) for k, x in values.items()}
        if sub == "bwd":
            return L.gpsr.analytical_gpsr_bwd(state, gates, obs, values)
        if sub == "shots-bwd":
            return L.gpsr.finite_shots_gpsr_backward(state, gates, obs, values, 3, key)
        if sub == "grad":
            return jax.grad(lambda v: L.api.expectation(state, seq, obs, v, D.AD).sum())(values)
        if sub == "jit":
            return jax.jit(lambda v: L.api.expectation(state, seq, obs, v))(values)
        raise ValueError(sub)

    # ---------------------------------------------------------------- shots
    def op_sample(self, op, client):
        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        values = self.get_values(op, client)
        L = self.lib
        fold = op.get("fold")

        def call():
            engine.set_fold(fold)
            try:
                if op.get("nshots") == "default":
                    return L.api.sample(state, circ, values)
                return L.api.sample(state, circ, values, op["shots"])
            finally:
                engine.set_fold(None)

        def check(res):
            self.check_counts(res, self.ref_state(ss, cs, op["v"]), op["shots"])

        return call, check

    def check_counts(self, res, ref, shots):
        from collections import Counter

        self.need(isinstance(res, Counter), "wrong-counts", f"{type(res).__name__}")
        p = R.probs(*ref)
        self.need(all(isinstance(k, str) and len(k) == self.n and set(k) <= {"0", "1"} for k in res), "wrong-counts", f"keys {list(res)[:4]}")
        self.need(all(isinstance(v, int) and v > 0 for v in res.values()), "wrong-counts", f"counts {list(res.values())[:4]}")
        self.need(sum(res.values()) == shots, "wrong-counts", f"{sum(res.values())} of {shots} shots")
        for k, c in res.items():
            self.need(p[int(k, 2)] > 1e-12, "impossible-outcome", f"{k} has probability {p[int(k, 2)]:.3g}, counted {c}")

    def obs_spectra(self, os_, v):
        return [np.linalg.eigvalsh(R.obs_matrix(o, self.n, v)) for o in os_]

    def op_shots(self, op, client):
        import jax

        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, os_ = self.get_obs(op)
        values = self.get_values(op, client)
        L = self.lib
        key = key_of(op)
        circ = circ if not isinstance(circ, list) else L.comp.OpSequence(circ)

        def call():
            if op.get("nokey"):
                return L.api.expectation(state, circ, obs, values, L.ops.DiffMode(op.get("mode", "ad")), op["shots"])
            return L.api.expectation(state, circ, obs, values, L.ops.DiffMode(op.get("mode", "ad")), n_shots=op["shots"], key=key)

        def check(res):
            res = np.asarray(res, dtype=float).reshape(-1)
            self.need(res.shape == (len(os_),), "wrong-estimate", f"shape {res.shape}")
            for x, o, w in zip(res, os_, self.obs_spectra(os_, op["v"])):
                self.need(w[0] - 1e-9 <= x <= w[-1] + 1e-9, "outside-spectrum", f"{x} not in [{w[0]}, {w[-1]}]")

        return call, check

    def op_shotgrad(self, op, client):
        import jax
        import jax.numpy as jnp

        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, os_ = self.get_obs(op)
        values = self.get_values(dict(op, vt="j"), client)
        L = self.lib
        key = key_of(op)
        gates = circ if isinstance(circ, list) else self.own("gates", list(iter(circ)))
        seq = circ if not isinstance(circ, list) else L.comp.OpSequence(circ)
        names = list(op["v"])

        def call():
            if op.get("via") == "bwd":
                return L.gpsr.finite_shots_gpsr_backward(state, gates, obs, values, op["shots"], key)
            return jax.grad(lambda v: L.api.expectation(state, seq, obs, v, L.ops.DiffMode.GPSR, n_shots=op["shots"], key=key).sum())(values)

        def check(res):
            if op.get("via") == "bwd":
                res = dict(zip(names, np.asarray(res).reshape(-1)))
            self.need(set(res) == set(names), "wrong-gradient", f"names {sorted(res)}")
            g = np.array([float(res[k]) for k in names])
            self.need(bool(np.all(np.isfinite(g))), "wrong-gradient", f"{g}")
            # |derivative| is bounded by the shift rule over the spectrum
            sp = self.obs_spectra(os_, op["v"])
            gs = R.flat_gates(cs["gates"])
            for k, x in zip(names, g):
                m = sum(1 for q in gs if q.get("p") == k)
                if m and k not in [y for o in os_ for y in _names(o)]:
                    bound = m * sum((w[-1] - w[0]) / 2 for w in sp)
                    self.need(abs(x) <= bound + 1e-9, "outside-spectrum", f"d/d{k} = {x} beyond {bound}")

        return call, check

    # ---------------------------------------------------------------- names
    def op_names(self, op, client):
        circ, cs = self.get_circ(op)
        L = self.lib
        if isinstance(circ, list):
            circ = L.comp.OpSequence(circ)
        want = _gate_names(cs["gates"])

        def call():
            return list(circ.param_names), list(getattr(circ, "vparams", ())), circ.n_vparams, [str(g.name) for g in iter(circ)]

        def check(res):
            pn, vp, nv, kinds = res
            self.need(pn == want, "wrong-names", f"{pn} instead of {want}")
            if cs["kind"] == "qc":
                w = [k for k in want if k not in cs.get("fparams", ())]
                self.need(vp == w, "wrong-names", f"variational {vp} instead of {w}")
                self.need(nv == len(w), "wrong-names", f"n_vparams {nv}")
            else:
                self.need(nv == len(want), "wrong-names", f"n_vparams {nv}")

        return call, check

    def op_build(self, op, client):
        """Containers built from lists of the caller, and conversions of containers."""
        from .world3 import describe_op

        L = self.lib
        cs = self.spec["circs"][op["c"]]
        circ, _ = self.get_circ(op)
        gates = self.own("gates", [L.gate(g) for g in cs["gates"]])
        names = self.own("feature parameters", list(op["fp"]))
        ob = self.obss[op["o"][0]]
        terms = self.own("terms", list(ob.operations))
        kind = op["kind"]

        def call():
            if kind == "circuit":
                return L.circuit.QuantumCircuit(self.n, gates, names)
            if kind == "default":
                return L.circuit.QuantumCircuit(self.n, gates)
            if kind == "observable":
                return L.comp.Observable(terms)
            if kind == "sum":
                return L.comp.Add(terms)
            if kind == "scale":
                return L.comp.Scale(gates, 2.0)
            x = ob if kind == "conv-obs" else L.comp.OpSequence(circ) if isinstance(circ, list) else circ
            return L.conv.to_dense(L.conv.to_sparse(x)) if op.get("there") else L.conv.to_sparse(x)

        def check(res):
            want = describe_op(res)
            if kind == "default":
                self.need(res.fparams == [], "aliased", f"feature parameters {res.fparams} of a circuit without")
            kept, kept_names = list(gates), list(names)
            if not kind.startswith("conv"):  # the caller goes on using its lists
                gates.append(L.gate({"k": "X", "t": [0]}))
                names.append("later")
                terms.append(gates[-1])
                got = describe_op(res)
                gates[:], names[:] = kept, kept_names
                terms.pop()
                self.need(got == want, "aliased", f"lists of the caller changed after building: {str(got)[:200]} instead of {str(want)[:200]}")
            res.operations.clear()
            if hasattr(res, "fparams"):
                res.fparams.append("mine")

        return call, check

    def op_hea(self, op, client):
        L = self.lib
        kw = {}
        if op.get("prefix") is not None:
            kw["variational_param_prefix"] = op["prefix"]
        if op.get("rots"):
            kw["rot_fns"] = [getattr(L.prim, k) for k in op["rots"]]

        def call():
            return L.circuit.hea(op["q"], op["layers"], **kw)

        def check(res):
            self.check_hea(op, res)

        return call, check

    def check_hea(self, op, res):
        q = op["q"]
        rots = op.get("rots") or ["RX", "RY", "RX"]
        want = []
        for _ in range(op["layers"]):
            for i in range(q):
                want += [(k, (i,), None) for k in rots]
                want += [("X", ((j + 1) % q,), (j % q,)) for j in range(q)]
        got, names = [], []
        for g in res:
            k = type(g).__name__
            if g.is_parametric:
                names.append(g.param)
                kind = "PHASE" if k == "_PHASE" else "R" + g.generator_name
                got.append((kind, tuple(g.target[0]), None if g.control[0] is None else tuple(g.control[0])))
            else:
                c = g.control[0]
                got.append((g.generator_name, tuple(g.target[0]), None if c is None else tuple(c)))
        self.need([x[0] for x in got] == [x[0] for x in want], "wrong-ansatz", "kinds of gates")
        self.need([x[1] for x in got] == [x[1] for x in want], "wrong-ansatz", "targets")
        pre = op.get("prefix") if op.get("prefix") is not None else "v_"
        self.need(all(isinstance(x, str) and x.startswith(pre) and len(x) > len(pre) for x in names), "wrong-names", f"{names[:2]}")
        self.need(len(names) == q * op["layers"] * len(rots), "wrong-ansatz", f"{len(names)} parameters")
        self.fresh_names(names)

    def fresh_names(self, names):
        self.need(len(set(names)) == len(names), "repeated-name", "a parameter name is used twice in one ansatz")
        seen = self.regs.setdefault("names", set())
        dup = seen & set(names)
        self.need(not dup, "repeated-name", f"{sorted(dup)[:2]} was given to another ansatz before")
        seen.update(names)


def _names(o):
    from .gen import names_of_obs

    return names_of_obs(o)


def _gate_names(gates):
    from .gen import names_of_gates

    return [k for k in names_of_gates(gates) if k != "time_evolution"]
