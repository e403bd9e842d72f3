"""More operations: transformations, statistics, registers, training loops, restarts."""
from __future__ import annotations

import hashlib
import json
import math
import random

import numpy as np

from . import engine, refmodel as R
from .gen import names_of_gates, names_of_obs
from .world import Lib, Violation, World, key_of, value_of

LIMIT = 32.0  # -ln of the chance that a correct sampler exceeds a bound once (times 2)


def kl(a, p):
    out = 0.0
    if a > 0:
        out += a * math.log(a / p)
    if a < 1:
        out += (1 - a) * math.log((1 - a) / (1 - p))
    return out


def binomial_alarm(c, n, p):
    """Chernoff: c of n successes at probability p is as unlikely as exp(-return value)."""
    if p <= 1e-13:
        return 1e9 if c else 0.0
    if p >= 1 - 1e-13:
        return 1e9 if c < n else 0.0
    return n * kl(c / n, p)


def bernstein_alarm(err, var, b):
    """P(|sum of independent centred terms bounded by b with total variance var| > err)."""
    if err <= 1e-9:
        return 0.0
    d = 2 * (var + b * err / 3)
    return 1e9 if d <= 0 else err * err / d


def dense(x):
    return np.asarray(x.todense() if hasattr(x, "todense") else x, dtype=float).reshape(-1)


class BigWorld(World):
    # ------------------------------------------------------------ transformations
    def jitted(self, key, make):
        """Compiled functions are shared by all threads of the application."""
        f = self.jits.get(key)
        if f is None:
            f = self.jits[key] = make()
        return f

    def quantity(self, op, ss, cs, os_, v):
        """Reference answer of the quantity an operation computes, as a flat array."""
        if op["q"] == "state":
            return self.ref_state(ss, cs, v)
        return R.expectations(ss, self.n, cs["gates"], os_, v), None

    def compute(self, op, state, circ, obs, values):
        L = self.lib
        if "hamiltonian" not in values:
            ham = self.ham_values(self.spec["circs"][op["c"]], op)
            values = {**values, **ham} if ham else values
        if op["q"] == "state":
            if isinstance(circ, list):
                out = L.apply.apply_gates(state, circ, values)
            else:
                out = L.api.run(circ, state, values)
            return out
        return L.api.expectation(state, circ, obs, values, L.ops.DiffMode(op.get("mode", "ad")))

    def op_tf(self, op, client):
        import jax
        import jax.numpy as jnp

        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, os_ = self.get_obs(op)
        form = op["form"]
        names = list(op["v"])
        if form in ("jit", "jitargs", "jitgrad", "tree", "twice"):
            values = self.get_values(op, client)
        else:
            values = {k: jnp.array(x) for k, x in op["v"].items()}
        ident = json.dumps([form, op["q"], op.get("mode"), op["s"], op["c"], op["o"], op.get("w")])

        if form == "jit":
            def call():
                f = self.jitted(ident, lambda: jax.jit(lambda v: self.compute(op, state, circ, obs, v)))
                return f(values)
        elif form == "twice":  # compiled and direct use of the same objects, in turn
            def call():
                f = self.jitted(ident, lambda: jax.jit(lambda v: self.compute(op, state, circ, obs, v)))
                a = f(values)
                b = self.compute(op, state, circ, obs, values)
                return a, b, f(values)
        elif form == "jitargs":
            def call():
                f = self.jitted(
                    ("jitargs", op["q"], op.get("mode")),
                    lambda: jax.jit(lambda s, c, o, v: self.compute(op, s, c, o, v)),
                )
                return f(state, circ, obs, values)
        elif form == "tree":
            def call():
                s, c, o = jax.tree_util.tree_map(lambda x: x, (state, circ, obs))
                leaves, td = jax.tree_util.tree_flatten((s, c, o))
                s, c, o = jax.tree_util.tree_unflatten(td, leaves)
                return self.compute(op, s, c, o, values)
        elif form == "vmap":
            batch = {k: jnp.array([x[k] for x in op["vb"]]) for k in names}

            def call():
                f = lambda v: self.compute(op, state, circ, obs, v)
                return (jax.jit(jax.vmap(f)) if op.get("jit") else jax.vmap(f))(batch)
        elif form == "vmapstate":
            sts = [R.state_array(s, self.n)[0] for s in op["sb"]]
            arr = jnp.array(np.array(sts).reshape((len(sts),) + (2,) * self.n))

            def call():
                return jax.vmap(lambda s: self.compute(op, s, circ, obs, values))(arr)
        elif form == "scan":
            batch = {k: jnp.array([x[k] for x in op["vb"]]) for k in names}

            def call():
                if op["q"] == "state":
                    return jax.lax.scan(lambda s, v: (self.compute(op, s, circ, obs, v), 0.0), state, batch)[0]
                return jax.lax.scan(lambda s, v: (s, self.compute(op, state, circ, obs, v)), 0.0, batch)[1]
        elif form == "jitgrad":
            w = jnp.array(op["w"])
            values = {k: jnp.array(x) for k, x in op["v"].items()}

            def call():
                f = self.jitted(ident, lambda: jax.jit(jax.grad(lambda v: jnp.dot(w, self.compute(op, state, circ, obs, v).reshape(-1)))))
                return f(values)
        elif form == "vmapgrad":
            w = jnp.array(op["w"])
            batch = {k: jnp.array([x[k] for x in op["vb"]]) for k in names}

            def call():
                return jax.vmap(jax.grad(lambda v: jnp.dot(w, self.compute(op, state, circ, obs, v).reshape(-1))))(batch)
        else:
            raise ValueError(form)

        def check(res):
            cls = "transformed-differs"
            if form in ("jit", "jitargs", "tree", "twice"):
                for r in res if form == "twice" else (res,):
                    if op["q"] == "state":
                        self.check_state(r, self.ref_state(ss, cs, op["v"]), cls=cls)
                    else:
                        self.same(dense(r), R.expectations(ss, self.n, cs["gates"], os_, op["v"]), self.TOL, cls, form)
            elif form in ("vmap", "scan") and op["q"] == "exp":
                want = np.array([R.expectations(ss, self.n, cs["gates"], os_, x) for x in op["vb"]])
                self.same(np.asarray(res, dtype=float).reshape(want.shape), want, self.TOL, cls, form)
            elif form == "scan":
                arr, dm = R.state_array(ss, self.n)
                for x in op["vb"]:
                    arr, dm = R.evolve(arr, dm, self.n, cs["gates"], x)
                self.check_state(res, (arr, dm), cls=cls)
            elif form == "vmap":
                for j, x in enumerate(op["vb"]):
                    self.check_state(jax.tree_util.tree_map(lambda a: a[j], res), self.ref_state(ss, cs, x), cls=cls)
            elif form == "vmapstate":
                for j, s in enumerate(op["sb"]):
                    if op["q"] == "state":
                        self.check_state(jax.tree_util.tree_map(lambda a: a[j], res), self.ref_state(s, cs, op["v"]), cls=cls)
                    else:
                        self.same(np.asarray(res[j], dtype=float).reshape(-1), R.expectations(s, self.n, cs["gates"], os_, op["v"]), self.TOL, cls, form)
            elif form in ("jitgrad", "vmapgrad"):
                for j, x in enumerate(op["vb"] if form == "vmapgrad" else [op["v"]]):
                    want = R.gradient(self.f_ref(ss, cs, os_, np.array(op["w"])), x)
                    got = [float(res[k][j] if form == "vmapgrad" else res[k]) for k in names]
                    self.same(got, [want[k] for k in names], self.GTOL, cls, f"{form} {names}")

        return call, check

    # ------------------------------------------------------------ sampling statistics
    def op_samplestat(self, op, client):
        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        values = self.get_values(op, client)
        L = self.lib

        def call():
            out = []
            for j in range(op["reps"]):
                engine.set_fold(op["fold"] + j)
                try:
                    out.append(L.api.sample(state, circ, values, op["shots"]))
                finally:
                    engine.set_fold(None)
            return out

        def check(res):
            ref = self.ref_state(ss, cs, op["v"])
            for x in res:
                self.check_counts(x, ref, op["shots"])
            if all(x == res[0] for x in res):  # one draw
                res = res[:1]
            n = self.n
            tot = np.zeros(2**n)
            for x in res:
                for k, c in x.items():
                    tot[int(k, 2)] += c
            N = int(tot.sum())
            p = np.clip(R.probs(*ref), 0, 1)
            self.stats["shots-judged"] = self.stats.get("shots-judged", 0) + N
            for k in range(2**n):
                a = binomial_alarm(tot[k], N, p[k])
                self.need(a < LIMIT, "biased-samples", f"{k:0{n}b}: {int(tot[k])} of {N} at probability {p[k]:.5g}")
            many = len(res) >= 100
            each = np.zeros((len(res), 2**n)) if many else None
            for j, x in enumerate(res if many else ()):
                for k, c in x.items():
                    each[j, int(k, 2)] = c

            def spread(c, q, what):
                if not many or not 0.05 < q < 0.95:
                    return
                m = op["shots"]
                s = float(((c - m * q) ** 2).mean() / (m * q * (1 - q)))
                lo, hi = spread_window(len(res), m, q * (1 - q), 1.0)
                self.need(lo < s < hi, "dependent-shots", f"{what}: variance of the counts is {s:.3g} times that of {m} independent shots")

            for k in range(2**n):
                spread(each[:, k] if many else None, p[k], f"{k:0{n}b}")
            idx = np.arange(2**n)
            sets = range(1, 2**n) if n < 8 else sorted({(1 << a) | (1 << b) for a in range(n) for b in range(n)})
            for m in sets:  # parities of all subsets of qubits
                odd = np.array([bin(i & m).count("1") % 2 for i in idx], dtype=bool)
                a = binomial_alarm(tot[odd].sum(), N, min(1.0, p[odd].sum()))
                self.need(a < LIMIT, "biased-samples", f"parity of qubits {m:0{n}b}: {int(tot[odd].sum())} of {N} at probability {p[odd].sum():.5g}")
                spread(each[:, odd].sum(axis=1) if many else None, float(p[odd].sum()), f"parity of qubits {m:0{n}b}")

        return call, check

    def spectral(self, o, v, ref):
        """(eigenvalues, mean, variance) of an observable in a state."""
        w, vec = np.linalg.eigh(R.obs_matrix(o, self.n, v))
        arr, dm = ref
        pr = np.einsum("ij,ik,kj->j", vec.conj(), arr, vec).real if dm else np.abs(vec.conj().T @ arr) ** 2
        mean = float(pr @ w)
        return w, mean, max(0.0, float(pr @ (w - mean) ** 2))

    def op_shotstat(self, op, client):
        import jax

        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, os_ = self.get_obs(op)
        values = self.get_values(op, client)
        L = self.lib
        circ = circ if not isinstance(circ, list) else L.comp.OpSequence(circ)
        mode = L.ops.DiffMode(op.get("mode", "ad"))
        n, M = op["shots"], op["reps"]
        keys = jax.random.split(key_of(op), M)
        ident = json.dumps(["shotstat", op.get("mode"), op["s"], op["c"], op["o"], n])

        def one(key, v):
            return L.api.expectation(state, circ, obs, v, mode, n_shots=n, key=key)

        def call():
            f = self.jitted(ident, lambda: jax.jit(one)) if op.get("jit") else one
            return [np.asarray(f(k, values), dtype=float).reshape(-1) for k in keys]

        def check(res):
            ref = self.ref_state(ss, cs, op["v"])
            x = np.array(res)
            self.need(x.shape == (M, len(os_)), "wrong-estimate", f"shape {x.shape}")
            self.stats["shots-judged"] = self.stats.get("shots-judged", 0) + M * n * len(os_)
            for j, o in enumerate(os_):
                self.judge_estimates(x[:, j], n, *self.spectral(o, op["v"], ref), f"observable {j}")

        return call, check

    def judge_estimates(self, x, n, w, mean, var, what):
        M = len(x)
        R_ = w[-1] - w[0]
        self.need(bool(np.all(np.isfinite(x))), "wrong-estimate", f"{what}: {x[:4]}")
        self.need(bool(np.all((x >= w[0] - 1e-8) & (x <= w[-1] + 1e-8))), "outside-spectrum", f"{what}: {x.min()}..{x.max()} not in [{w[0]}, {w[-1]}]")
        if n <= 3:
            ev = []
            for y in w:
                if not ev or y - ev[-1] > 1e-9:
                    ev.append(y)
            sums = np.zeros(1)
            for _ in range(n):
                sums = np.unique(np.round((sums[:, None] + np.array(ev)[None, :]).ravel(), 10))
            d = np.abs(x[:, None] * n - sums[None, :]).min(axis=1)
            self.need(bool(d.max() < 1e-7), "no-eigenvalue", f"{what}: {x[int(d.argmax())]} is not the mean of {n} of {np.round(ev, 6)}")
        else:
            # the number of shots shows in the values an estimate can take
            ev = w[np.concatenate([[True], np.diff(w) > 1e-9])]
            if len(ev) > 1:
                d = float(np.diff(ev).min())
                k = (ev - ev[0]) / d
                if d > 1e-3 and float(np.abs(k - np.round(k)).max()) < 1e-9:
                    y = (x - ev[0]) * n / d
                    off = np.abs(y - np.round(y))
                    self.need(bool(off.max() < 1e-5), "no-mean-of-shots", f"{what}: {x[int(off.argmax())]!r} is not a mean of {n} of {np.round(ev, 6)}")
        err = abs(float(x.mean()) - mean)
        a = bernstein_alarm(err, var / (n * M), R_ / (n * M))
        if M > 1 and bool(np.all(x == x[0])) and var > 1e-9:
            a = bernstein_alarm(err, var / n, R_ / n)
        self.need(a < LIMIT, "biased-estimate", f"{what}: mean {x.mean():.6g} of {M} estimates with {n} shots, exact {mean:.6g}, deviation {math.sqrt(var):.3g} per shot")
        # spread: enough repetitions, and enough shots for an estimate to be near normal
        if M >= 100 and R_ > 1e-6 and var > 0.02 * R_ * R_:
            s = float(((x - mean) ** 2).mean() * n / var)
            lo, hi = spread_window(M, n, var, R_)
            self.need(lo < s < hi, "wrong-spread", f"{what}: variance of the estimates is {s:.3g} times that of {n} independent shots")

    def op_gradstat(self, op, client):
        import jax
        import jax.numpy as jnp

        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, os_ = self.get_obs(op)
        values = self.get_values(dict(op, vt="j"), client, {})
        L = self.lib
        n, M = op["shots"], op["reps"]
        keys = jax.random.split(key_of(op), M)
        gates = circ if isinstance(circ, list) else list(iter(circ))
        seq = circ if not isinstance(circ, list) else L.comp.OpSequence(circ)
        names = list(op["v"])
        ident = json.dumps(["gradstat", op["via"], op["s"], op["c"], op["o"], n])

        def call():
            if op["via"] == "bwd":
                f = lambda v, k: L.gpsr.finite_shots_gpsr_backward(state, gates, obs, v, n, k)
            else:
                f = jax.grad(lambda v, k: L.api.expectation(state, seq, obs, v, L.ops.DiffMode.GPSR, n_shots=n, key=k).sum())
            if op.get("jit"):
                f = self.jitted(ident, lambda: jax.jit(f))
            if op["via"] == "bwd":
                out = np.array([np.asarray(f(values, k)).reshape(-1) for k in keys])
                if op.get("jit"):  # the rows of a compiled call are in the order of the names
                    out = out[:, [sorted(names).index(k) for k in names]] if out.shape[1] == len(names) else out
                return out
            out = []
            for k in keys:
                g = f(values, k)
                if set(g) != set(names):
                    return [np.array([np.nan])]
                out.append(np.array([float(g[q]) for q in names]))
            return out

        def check(res):
            x = np.array(res)
            self.need(x.shape == (M, len(names)) and bool(np.all(np.isfinite(x))), "wrong-gradient", f"shape {x.shape} names {names}")
            self.stats["shots-judged"] = self.stats.get("shots-judged", 0) + M * n * len(os_) * 2 * len(names)
            grad = R.gradient(self.f_ref(ss, cs, os_, np.ones(len(os_))), op["v"])
            terms = {k: self.shift_terms(ss, cs, os_, op["v"], k) for k in names}
            for j, k in enumerate(names):
                var, b = terms[k]
                err = abs(float(x[:, j].mean()) - grad[k])
                a = bernstein_alarm(max(0.0, err - 1e-7), var / (n * M), b / (n * M))
                self.need(a < LIMIT, "biased-gradient", f"d/d{k}: mean {x[:, j].mean():.6g} of {M} estimates with {n} shots, exact {grad[k]:.6g}, expected error {math.sqrt(var / (n * M)):.3g}")
                if var < 1e-12:
                    self.same(x[:, j], np.full(M, grad[k]), 1e-6, "biased-gradient", f"d/d{k} has no variance")
            # different parameters are estimated from different randomness
            if len(os_) == 1 and M >= 100:
                r = random.Random(op["key"])
                for _ in range(4):
                    c = np.array([r.choice([-1.0, 1.0, 0.0, 1.0]) for _ in names])
                    var = sum(ci * ci * terms[k][0] for ci, k in zip(c, names))
                    if var < 1e-3:
                        continue
                    bmax = max(abs(ci) * terms[k][1] for ci, k in zip(c, names))
                    y = x @ c - sum(ci * grad[k] for ci, k in zip(c, names))
                    s = float((y**2).mean() * n / var)
                    lo, hi = spread_window(M, n, var, bmax)
                    self.need(lo < s < hi, "wrong-spread", f"combination {c.tolist()} of the derivatives by {names}: variance {s:.3g} times that of independent shots")
                for a, k in enumerate(names):  # and of any two
                    for b in range(a):
                        va, vb = terms[k][0], terms[names[b]][0]
                        if min(va, vb) < 1e-3:
                            continue
                        wide = max(terms[k][1] / math.sqrt(va), terms[names[b]][1] / math.sqrt(vb))
                        lo, hi = spread_window(M, n, 2.0, wide)
                        for sg in (1, -1):
                            y = (x[:, a] - grad[k]) / math.sqrt(va) + sg * (x[:, b] - grad[names[b]]) / math.sqrt(vb)
                            s = float((y**2).mean() * n / 2)
                            self.need(lo < s < hi, "dependent-derivatives", f"derivatives by {k} and {names[b]}: variance of their {'sum' if sg > 0 else 'difference'} is {s:.3g} times that of independent shots")

        return call, check

    def shift_terms(self, ss, cs, os_, v, name):
        """Variance (times n) of the shift-rule estimate of a derivative summed over
        observables, and the largest weight of a single shot.  For several observables
        the variance is an upper bound, since they may be measured together."""
        gs = R.flat_gates(cs["gates"])
        idx = [i for i, g in enumerate(gs) if g.get("p") == name]
        var, b = 0.0, 0.0

        def add(gates, vals, coef):
            nonlocal var, b
            ref = self.ref_state(ss, {"gates": gates}, vals)
            sd = 0.0
            for o in os_:
                w, _, s2 = self.spectral(o, vals, ref)
                sd += math.sqrt(s2)
                b = max(b, abs(coef) * (w[-1] - w[0]) * len(os_))
            var += coef * coef * sd * sd

        for i in idx:
            for s in (1, -1):
                g2 = [dict(g) for g in gs]
                g2[i]["p"] = float(v[name]) + s * math.pi / 2
                add(g2, v, 0.5)
        if not idx:  # of an observable, or of nothing: then the estimate has mean 0
            for s in (1, -1):
                v2 = dict(v)
                v2[name] = v[name] + s * math.pi / 2
                add(gs, v2, 1 / math.pi)
        return var, b

    # ------------------------------------------------------------ long-lived registers
    def op_reg(self, op, client):
        """Evolve the client's own register by one circuit."""
        L = self.lib
        circ, cs = self.get_circ(op)
        values = self.get_values(op, client)
        slot = (client.idx, op["r"])
        reg = self.regs.get(slot)
        if reg is None or op.get("reset"):
            ss = self.spec["states"][op["s"]]
            reg = (L.state(ss, self.n), R.state_array(ss, self.n), 0)
        cur, ref, age = reg
        gates = circ if isinstance(circ, list) else None
        rep = op.get("times", 1)

        def call():
            st = cur
            for _ in range(rep):
                if gates is not None or op.get("group"):
                    st = L.apply.apply_gates(st, gates if gates is not None else list(iter(circ)), values, group_gates=op.get("group", False))
                else:
                    st = L.api.run(circ, st, values)
            return st

        def check(res):
            want = ref
            for _ in range(rep):
                want = R.evolve(*want, self.n, cs["gates"], op["v"])
            got, dm = L.to_numpy(res)
            # a step that was only tried leaves the register as it is
            self.regs[slot] = (res, want, age + rep) if not op.get("try") else reg
            self.stats["longest-register"] = max(self.stats.get("longest-register", 0), age + rep)
            try:
                self.physical(got, dm)
                self.check_state(res, want, cls="drifted")
            except Violation:
                self.regs.pop(slot, None)
                raise

        return call, check

    def physical(self, got, dm):
        if dm:
            self.need(abs(np.trace(got) - 1) < 1e-9, "unphysical", f"trace {np.trace(got)}")
            self.need(float(np.abs(got - got.conj().T).max()) < 1e-9, "unphysical", "density matrix is not hermitian")
            lo = float(np.linalg.eigvalsh((got + got.conj().T) / 2)[0])
            self.need(lo > -1e-9, "unphysical", f"density matrix has eigenvalue {lo:.3g}")
        else:
            nrm = float(np.linalg.norm(got))
            self.need(abs(nrm - 1) < 1e-9, "unphysical", f"norm {nrm!r}")

    def op_regread(self, op, client):
        """Measure a register without disturbing it."""
        L = self.lib
        slot = (client.idx, op["r"])
        reg = self.regs.get(slot)
        if reg is None:
            ss = self.spec["states"][op["s"]]
            reg = self.regs[slot] = (L.state(ss, self.n), R.state_array(ss, self.n), 0)
        cur, ref, _ = reg
        idle = L.comp.OpSequence([L.prim.I(0)])
        obs, os_ = self.get_obs(op)

        def call():
            if op["what"] == "sample":
                return L.api.sample(cur, idle, {}, op["shots"])
            if op["what"] == "exp":
                return L.api.expectation(cur, idle, obs, {})
            return L.ops.probabilities(cur)

        def check(res):
            if op["what"] == "sample":
                self.check_counts(res, ref, op["shots"])
            elif op["what"] == "exp":
                self.same(np.asarray(res, dtype=float).reshape(-1), [R.expect(*ref, self.n, o, {}) for o in os_], self.TOL, "wrong-expectation")
            elif res is not None:
                p = np.asarray(res, dtype=float).reshape(-1)
                self.same(p, R.probs(*ref), self.TOL, "unphysical", "probabilities")
                self.need(abs(p.sum() - 1) < 1e-9 and p.min() > -1e-12, "unphysical", f"probabilities sum to {p.sum()!r}")
            self.check_state(cur, ref, cls="disturbed")

        return call, check

    # ------------------------------------------------------------ names and restarts
    def op_restart(self, op, client):
        """The process of the application ends and starts again; names that were given
        out before are still in its checkpoints."""

        def call():
            return None

        self.lib = Lib(self.share)
        self.build()
        self.jits = {}
        if op.get("seed") is not None:  # an application that seeds its generators on startup
            self.sim.reseed(op["seed"])
        self.sim.count("fault:restart")
        return call, (lambda res: None)

    def op_heause(self, op, client):
        """Build an ansatz, wrap it, and use it with values given by position."""
        import jax.numpy as jnp

        L = self.lib
        rots = op.get("rots") or ["RX", "RY", "RX"]

        def call():
            kw = {}
            if op.get("rots"):
                kw["rot_fns"] = [getattr(L.prim, k) for k in op["rots"]]
            if op.get("prefix") is not None:
                kw["variational_param_prefix"] = op["prefix"]
            ops = L.circuit.hea(op["q"], op["layers"], **kw)
            fm = [L.prim.RX("phi_in", i) for i in range(op["q"])] if op.get("feature") else []
            circ = L.circuit.QuantumCircuit(op["q"], fm + ops, ["phi_in"] if fm else [])
            vp = list(circ.vparams)
            vals = dict(zip(vp, op["x"]))
            vals["phi_in"] = 0.3
            out = L.api.expectation(L.ops.zero_state(op["q"]), circ, [L.comp.Observable([L.prim.Z(i)]) for i in range(op["q"])], vals)
            return ops, vp, circ.n_vparams, out

        def check(res):
            ops, vp, nv, out = res
            names = [g.param for g in ops if g.is_parametric]
            self.need(vp == names, "wrong-names", "variational parameters are not in order of first use")
            self.need(nv == len(names) == len(op["x"]), "wrong-names", f"{nv} variational parameters")
            self.fresh_names(names)
            gates = [{"k": "RX", "t": [i], "p": 0.3} for i in range(op["q"])] if op.get("feature") else []
            j = 0
            for g in ops:
                if g.is_parametric:
                    gates.append({"k": rots[j % len(rots)], "t": list(g.target[0]), "p": op["x"][j]})
                    j += 1
                else:
                    c = g.control[0]
                    gates.append({"k": g.generator_name, "t": list(g.target[0]), "c": [] if c is None else list(c)})
            want = R.expectations({"kind": "product", "bits": "0" * op["q"]}, op["q"], gates, [{"o": "add", "x": [{"o": "prim", "g": {"k": "Z", "t": [i]}}]} for i in range(op["q"])], {})
            self.same(np.asarray(out, dtype=float).reshape(-1), want, self.TOL, "wrong-expectation", "ansatz with values by position")

        return call, check


def spread_window(M, n, var, width):
    """Limits for the mean of M squared, normalised estimates (chi-square with the
    excess kurtosis a bounded shot can have)."""
    k = 2.0 + width * width / (var * n)
    sd = math.sqrt(k / M)
    return max(0.02, 1 - 5.5 * sd), 1 + 7.5 * sd


# ==================================================================== training
class Disk:
    """Simulated durable storage: one file per name, replaced by rename; a write that is
    cut off leaves a torn temporary file, never a torn target, as on a real file system."""

    def __init__(self):
        self.files = {}

    def replace(self, name, data: bytes, torn=None):
        if torn is not None:
            self.files[name + ".tmp"] = data[: int(len(data) * torn)]
            raise engine.SimAbort()
        self.files[name + ".tmp"] = data
        self.files[name] = self.files.pop(name + ".tmp")

    def read(self, name):
        return self.files.get(name)


class TrainWorld(BigWorld):
    """Clients optimise circuit parameters step by step, with a checkpoint after each
    step; the rest of the pool is used by evaluators at the same time."""

    def __init__(self, spec, stats, disk=None):
        self.disk = disk or Disk()
        self.mem = {}
        super().__init__(spec, stats)

    def trainer(self, client, tr):
        """Volatile state of one training job, restored from its checkpoint."""
        m = self.mem.get(client.idx)
        if m is not None:
            return m
        L = self.lib
        if tr.get("hea"):
            h = tr["hea"]
            ops = L.circuit.hea(h["q"], h["layers"], **({"rot_fns": [getattr(L.prim, k) for k in h["rots"]]} if h.get("rots") else {}))
            circ = L.circuit.QuantumCircuit(h["q"], ops, [])
        else:
            circ = self.circs[tr["c"]]
        names = list(circ.vparams)
        m = {"circ": circ, "gates": list(iter(circ)), "names": names}
        raw = self.disk.read(f"ckpt-{client.idx}")
        if raw is None:
            m.update(step=0, x=list(tr["x0"]), mom=[0.0] * len(tr["x0"]), loss=[])
        else:
            d = json.loads(raw)
            m.update(step=d["step"], x=[float.fromhex(y) for y in d["x"]], mom=[float.fromhex(y) for y in d["mom"]], loss=d["loss"])
            self.stats["restores"] = self.stats.get("restores", 0) + 1
        if len(names) != len(m["x"]):
            raise Violation("wrong-names", f"{len(names)} variational parameters for {len(m['x'])} saved values")
        self.mem[client.idx] = m
        return m

    def op_step(self, op, client):
        import jax
        import jax.numpy as jnp

        tr = self.spec["trainers"][op["tr"]]
        L = self.lib
        state = self.states[tr["s"]]
        obs = [self.obss[i] for i in tr["o"]]
        w = jnp.array(tr["w"])
        mode = L.ops.DiffMode(tr["mode"])
        box = {}

        def call():
            m = self.trainer(client, tr)
            box["m"] = m
            if m["step"] >= tr["T"]:
                return None
            vals = {k: jnp.array(y) for k, y in zip(m["names"], m["x"])}
            key = jax.random.fold_in(key_of(tr), m["step"])
            kw = {"n_shots": tr["shots"], "key": key} if tr.get("shots") else {}
            if tr["via"] == "bwd":
                if tr.get("shots"):
                    g = L.gpsr.finite_shots_gpsr_backward(state, m["gates"], obs, vals, tr["shots"], key)
                else:
                    g = L.gpsr.analytical_gpsr_bwd(state, m["gates"], obs, vals)
                g = [float(y) for y in np.asarray(g).reshape(-1)]
                loss = float(np.sum(np.asarray(L.api.expectation(state, m["circ"], obs, vals, mode, **kw))))
            else:
                f = lambda v: jnp.dot(w, L.api.expectation(state, m["circ"], obs, v, mode, **kw).reshape(-1))
                if tr.get("jit"):
                    f2 = m.get("jit")
                    if f2 is None:
                        f2 = m["jit"] = jax.jit(jax.value_and_grad(f))
                    loss, gd = f2(vals)
                else:
                    loss, gd = jax.value_and_grad(f)(vals)
                g = [float(gd[k]) for k in m["names"]]
                loss = float(loss)
            return g, loss

        def check(res):
            m = box["m"]
            if res is None:
                return
            m["x"], m["mom"] = update(tr, m["x"], m["mom"], res[0])
            m["step"] += 1
            m["loss"] = m["loss"] + [res[1]]
            data = json.dumps({"step": m["step"], "x": [float(y).hex() for y in m["x"]], "mom": [float(y).hex() for y in m["mom"]], "loss": m["loss"]}).encode()
            self.stats["checkpoints"] = self.stats.get("checkpoints", 0) + 1
            torn = op.get("torn")
            if torn is not None:
                self.stats["fault:torn_checkpoint"] = self.stats.get("fault:torn_checkpoint", 0) + 1
                self.sim.event("torn", client.idx, m["step"])
                self.sim.error = ("crash", "checkpoint write")
            self.disk.replace(f"ckpt-{client.idx}", data, torn)

        return call, check


def update(tr, x, mom, g):
    mom = [0.7 * a + b for a, b in zip(mom, g)]
    return [a - tr["lr"] * b for a, b in zip(x, mom)], mom


def reference_training(spec, tr, n):
    """The trajectory the loop has without any fault, from the model."""
    if tr.get("hea"):
        gates, names = hea_gates(tr["hea"])
    else:
        gates = spec["circs"][tr["c"]]["gates"]
        fp = spec["circs"][tr["c"]].get("fparams", ())
        names = [k for k in names_of_gates(gates) if k not in fp]
    obs = [spec["obs"][i] for i in tr["o"]]
    ss = spec["states"][tr["s"]]
    w = np.ones(len(obs)) if tr["via"] == "bwd" else np.array(tr["w"])

    def f(v):
        return float(np.dot(w, R.expectations(ss, n, gates, obs, v)))

    x, mom, losses = list(tr["x0"]), [0.0] * len(tr["x0"]), []
    for _ in range(tr["T"]):
        v = dict(zip(names, x))
        losses.append(f(v))
        g = R.gradient(f, v)
        x, mom = update(tr, x, mom, [g[k] for k in names])
    return x, losses


def hea_gates(h):
    rots = h.get("rots") or ["RX", "RY", "RX"]
    q = h["q"]
    gates, names = [], []
    for l in range(h["layers"]):
        for i in range(q):
            for k in rots:
                names.append(f"p{len(names)}")
                gates.append({"k": k, "t": [i], "p": names[-1]})
            gates += [{"k": "X", "t": [(j + 1) % q], "c": [j % q]} for j in range(q)]
    return gates, names


# ==================================================================== determinism
def plain(x):
    """A result as plain data, for comparison between executions and processes."""
    import jax

    t = type(x).__name__
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if t == "DensityMatrix":
        return plain(x.array)
    if isinstance(x, (jax.Array, np.ndarray, np.generic)):
        a = np.asarray(x).reshape(-1)
        if np.iscomplexobj(a):
            a = np.concatenate([a.real, a.imag])
        return [float(v) for v in a]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return t


def same_plain(a, b, tol=1e-10):
    if type(a) is not type(b):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= tol
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_plain(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_plain(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or abs(a - b) <= tol
    return a == b


def host_state():
    """Process-wide settings no call has any business to change."""
    import decimal
    import gc
    import jax
    import locale
    import logging
    import os
    import signal
    import sys
    import threading
    import warnings

    st = np.random.get_state()
    cfg = jax.config
    return {
        "warning filters": repr(warnings.filters),
        "environment": repr(sorted(os.environ.items())),
        "sys.path": repr(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.stdout), id(sys.stderr), repr(signal.getsignal(signal.SIGINT)), repr(signal.getsignal(signal.SIGTERM))),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "locale": locale.setlocale(locale.LC_ALL),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "decimal": repr(decimal.getcontext().prec),
        "numpy print options": repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "jax configuration": repr(sorted((k, str(v)) for k, v in cfg.values.items())),
        "random": hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:12],
        "numpy.random": hashlib.sha256(st[1].tobytes() + repr(st[2:]).encode()).hexdigest()[:12],
        "jax_enable_x64": bool(cfg.jax_enable_x64),
        "jax_debug_nans": bool(cfg.jax_debug_nans),
        "jax_disable_jit": bool(cfg.jax_disable_jit),
        "jax_default_matmul_precision": str(cfg.jax_default_matmul_precision),
        "numpy.seterr": str(np.geterr()),
        "cwd": os.getcwd(),
    }


class TwinWorld(BigWorld):
    """Keeps the outcome of every operation for comparison with another execution."""

    def __init__(self, spec, stats, host=None):
        self.outputs = host.outputs if host else {}
        super().__init__(spec, stats, host)
        self.judge = True

    def exec_op(self, sim, client, i, op):
        client.host = host_state()
        client.reseeded = False
        super().exec_op(sim, client, i, op)

    def after_op(self, sim, client, i, op, res, exc):
        if exc is None and op["op"] not in ("hea", "heause", "warm"):
            try:
                self.outputs[f"{client.idx}.{i}"] = plain(res)
            except Exception:
                pass

    def op_warm(self, op, client):
        """An unrelated caller: other objects, another register size. What it does may not
        show in anybody else's results, so the other execution of this run leaves it out."""
        if op.get("off"):
            return (lambda: None), (lambda res: None)
        L = self.lib
        n = op["n"]
        circ = L.circ(op["circ"], n)
        circ = circ if not isinstance(circ, list) else L.comp.OpSequence(circ)
        obs = [L.obs(op["obs"])]
        state = L.state(op["state"], n)
        import jax

        def call():
            out = []
            for k in op["do"]:
                if k == "sample":
                    out.append(L.api.sample(state, circ, dict(op["v"]), op["shots"]))
                elif k == "shots":
                    out.append(L.api.expectation(state, circ, obs, dict(op["v"]), L.ops.DiffMode("gpsr"), n_shots=op["shots"], key=jax.random.PRNGKey(op["shots"])))
                elif k == "run":
                    out.append(L.api.run(circ, state, dict(op["v"])))
                else:
                    out.append(L.api.expectation(state, circ, obs, dict(op["v"]), L.ops.DiffMode("ad")))
            return out

        return call, lambda res: None

    def op_keys(self, op, client):
        """Estimates under different keys are different draws."""
        import jax

        state, ss = self.get_state(op)
        circ, cs = self.get_circ(op)
        obs, os_ = self.get_obs(op)
        values = self.get_values(op, client)
        L = self.lib
        circ = circ if not isinstance(circ, list) else L.comp.OpSequence(circ)
        if op["how"] == "seeds":
            keys = [jax.random.PRNGKey(op["key"] + j) for j in range(8)]
        elif op["how"] == "high":  # seeds beyond 32 bits: the keys share their second word
            keys = [jax.random.wrap_key_data(np.array([j * 7919, op["key"]], dtype=np.uint32)) for j in range(8)]
            if not op.get("typed"):
                keys = [jax.random.key_data(k) for k in keys]
        else:
            keys = list(jax.random.split(key_of(op), 8))
        mode = L.ops.DiffMode(op.get("mode", "ad"))

        def call():
            a = [np.asarray(L.api.expectation(state, circ, obs, values, mode, n_shots=op["shots"], key=k), dtype=float).reshape(-1) for k in keys]
            b = np.asarray(L.api.expectation(state, circ, obs, values, mode, n_shots=op["shots"], key=keys[2]), dtype=float).reshape(-1)
            return a + [b]

        def check(res):
            self.same(res[-1], res[2], 1e-10, "not-repeatable", "same key, same call:")
            ref = self.ref_state(ss, cs, op["v"])
            for j, o in enumerate(os_):
                w, mean, var = self.spectral(o, op["v"], ref)
                if var > 0.05 * (w[-1] - w[0]) ** 2 and var > 1e-6:
                    x = [float(r[j]) for r in res[:-1]]
                    self.need(len(set(x)) > 1, "key-ignored", f"observable {j}: eight keys give {x[0]} each")

        return call, check
