"""Matrix forms, conversions and state utilities."""
from __future__ import annotations

import numpy as np

from . import refmodel as R
from .world import Violation, value_of
from .world2 import BigWorld


def dense(x):
    return np.asarray(x.todense() if hasattr(x, "todense") else x)


def support_of(gates):
    return sorted({q for g in R.flat_gates(gates) for q in list(g["t"]) + list(g.get("c") or [])})


def gates_of_node(o):
    if o["o"] == "prim":
        return [o["g"]]
    xs = [o["x"]] if o["o"] == "scale" else o["x"]
    return [g for x in xs for g in gates_of_node(x)]


def relabel(x, m):
    """A spec on the qubits m[q] instead of q."""
    if isinstance(x, dict):
        out = {k: relabel(v, m) for k, v in x.items()}
        for k in ("t", "c"):
            if k in x and x[k]:
                out[k] = [m[q] for q in x[k]]
        return out
    if isinstance(x, list):
        return [relabel(v, m) for v in x]
    return x


class FormsWorld(BigWorld):
    def subject(self, op):
        """The object an operation is about: (object, gate specs or None, node or None)."""
        m = op.get("labels")  # the same operation on qubits with other numbers
        if op["on"] == "obs":
            o = self.spec["obs"][op["o"][0]]
            obj = self.lib.obs(o) if op.get("fresh") else self.obss[op["o"][0]]
            if m:
                o = relabel(o, m)
                obj = self.lib.obs(o)
            if op.get("term") is not None:
                return obj.operations[op["term"]], None, o["x"][op["term"]]
            return obj, None, o
        circ, cs = self.get_circ(op)
        if m:
            cs = relabel(cs, m)
            circ = self.lib.circ(cs, max(m) + 1)
        if isinstance(circ, list):
            circ = self.lib.comp.OpSequence(circ)
        if op["on"] == "gate":
            flat = list(iter(circ))
            gs = R.flat_gates(cs["gates"])
            j = op["g"] % len(gs)
            return flat[j], [gs[j]], None
        return circ, cs["gates"], None

    def model_matrix(self, gates, node, sup, v):
        m = {q: i for i, q in enumerate(sup)}
        if node is not None:
            return R.obs_matrix(relabel(node, m), len(sup), v)
        u = np.eye(2 ** len(sup), dtype=complex)
        for g in R.flat_gates(relabel(gates, m)):
            u = R.apply_left(R.gate_matrix(g, v), u, len(sup), g["t"], g.get("c") or ())
        return u

    def form_values(self, op, client):
        import jax.numpy as jnp

        extra = {}
        if op.get("h") is not None:
            extra["hamiltonian"] = jnp.array(R.herm_from(*op["h"]))
        return self.get_values(op, client, extra)

    def op_matrix(self, op, client):
        import jax

        obj, gates, node = self.subject(op)
        values = self.form_values(op, client)
        sup = support_of(gates if node is None else gates_of_node(node))
        more = [op["labels"][q] for q in op.get("more", ())] if op.get("labels") else op.get("more", ())
        full = sorted(set(sup) | set(more))
        L = self.lib

        def call():
            x = obj
            if op.get("sparse"):
                x = L.conv.to_sparse(x)
                if op["sparse"] == "twice":
                    x = L.conv.to_dense(x)
            arg = None if op.get("more") is None else tuple(reversed(full) if op.get("rev") else full)
            if op.get("jit"):
                # (the matrix as a function of the values; objects closed over)
                return x.qubit_support, jax.jit(lambda v: x.tensor(v, arg))(values)
            return x.qubit_support, x.tensor(values) if arg is None else x.tensor(values, arg)

        def check(res):
            qs, m = res
            self.need(list(qs) == sup, "wrong-support", f"{qs} instead of {sup}")
            self.same(dense(m), self.model_matrix(gates, node, full if op.get("more") is not None else sup, op["v"]), self.TOL, "wrong-matrix", op["on"])

        return call, check

    def op_act(self, op, client):
        """An observable or a part of one, applied to a vector as an operator."""
        obj, _, node = self.subject(op)
        values = self.form_values(op, client)
        state = self.states[op["s"]]

        def call():
            return obj.forward(state, values) if hasattr(obj, "forward") else obj(state, values)

        def check(res):
            v, _ = R.state_array(self.spec["states"][op["s"]], self.n)
            got, dm = self.lib.to_numpy(res)
            self.need(not dm, "wrong-action", "a density matrix")
            self.same(got, R.obs_matrix(node, self.n, op["v"]) @ v, self.TOL, "wrong-action", op["on"])

        return call, check

    def op_bare(self, op, client):
        """A gate without a state acts on the zero state of its own qubits."""
        g = op["gate"]
        m = 1 + max(g["t"] + list(g.get("c") or ()))
        values = self.form_values(op, client)
        obj = self.lib.gate(g)
        if op.get("seq"):
            obj = self.lib.comp.OpSequence([obj])

        def call():
            return obj(values=values) if op.get("kw") else obj(None, values)

        def check(res):
            arr = np.zeros(2**m, dtype=complex)
            arr[0] = 1
            got, dm = self.lib.to_numpy(res)
            want, wdm = R.evolve(arr, False, m, [g], op["v"])
            self.need(dm == wdm, "wrong-action", "kind of state")
            self.same(got.reshape(np.shape(want)), want, self.TOL, "wrong-action", "no state given")

        return call, check

    def op_dagger(self, op, client):
        obj, gates, _ = self.subject(op)
        values = self.form_values(op, client)

        def call():
            return obj.dagger(values)

        def check(res):
            u = R.gate_matrix(gates[0], op["v"])
            self.same(dense(res), u.conj().T, self.TOL, "wrong-matrix", "adjoint")

        return call, check

    def op_convert(self, op, client):
        """There and back: the same object, with the same effect on a state."""
        obj, gates, node = self.subject(op)
        values = self.form_values(op, client)
        L = self.lib

        def call():
            sp = L.conv.to_sparse(obj)
            back = L.conv.to_dense(sp)
            st = L.conv.to_dense(L.conv.to_sparse(self.states[op["s"]]))
            out = None if node is not None else back(st, values)
            return sp, back, out

        def check(res):
            sp, back, out = res
            self.need(describe_op(back) == describe_op(obj), "lost-in-conversion", f"{describe_op(back)} instead of {describe_op(obj)}")
            self.need(describe_op(sp) == describe_op(obj, True), "lost-in-conversion", f"{describe_op(sp)} instead of {describe_op(obj, True)}")
            if out is not None:
                self.check_state(out, self.ref_state(self.spec["states"][op["s"]], {"gates": gates}, op["v"]))

        return call, check

    def op_overlap(self, op, client):
        L = self.lib
        sp = self.spec["states"]
        a, b = (self.states[i] for i in op["pair"])
        va, vb = (R.state_array(sp[i], self.n)[0] for i in op["pair"])
        ph = complex(np.exp(1j * op["phase"]))

        def call():
            x = a * ph
            y = b
            if op.get("sparse"):
                x, y = L.conv.to_sparse(x), L.conv.to_sparse(y)
            return L.ops.overlap(x, y), L.ops.overlap(y, x), L.ops.equivalent_state(x, y), L.ops.is_normalized(x), L.ops.equivalent_state(x, a if not op.get("sparse") else L.conv.to_sparse(a))

        def check(res):
            w = abs(np.vdot(va, vb)) ** 2
            self.same(dense(res[0]), w, self.TOL, "wrong-overlap")
            self.same(dense(res[1]), w, self.TOL, "wrong-overlap", "other order:")
            if abs(w - 1) > 1e-3 or abs(w - 1) < 1e-10:
                self.need(bool(res[2]) == (abs(w - 1) < 1e-9), "wrong-overlap", f"equivalent: {res[2]} at overlap {w}")
            self.need(bool(res[3]), "wrong-overlap", "state said not to be normalised")
            self.need(bool(res[4]), "wrong-overlap", "equal up to a phase, said to differ")

        return call, check

    def op_mkstate(self, op, client):
        L = self.lib
        n, sp = op["n"], op.get("sparse", False)
        k = op["kind"]

        def call():
            if k == "product":
                s = L.ops.product_state(op["bits"], sp)
            elif k == "zero":
                s = L.ops.zero_state(n, sp)
            elif k == "uniform":
                s = L.ops.uniform_state(n, sp)
            else:
                s = L.ops.random_state(n, sp)
            rho = L.ops.density_mat(s) if not sp else None
            return s, rho, L.ops.density_mat(rho) if rho is not None else None

        def check(res):
            s, rho, rho2 = res
            a = dense(s)
            self.need(a.shape == (2,) * n and np.iscomplexobj(a), "wrong-state", f"shape {a.shape} type {a.dtype}")
            a = a.reshape(-1)
            d = 2**n
            want = None
            if k in ("product", "zero"):
                want = np.zeros(d)
                want[int(op["bits"], 2) if k == "product" else 0] = 1
            elif k == "uniform":
                want = np.full(d, d**-0.5)
            if want is not None:
                self.same(a, want, self.TOL, "wrong-state", k)
            else:
                self.same(np.linalg.norm(a), 1.0, 1e-9, "wrong-state", "norm")
                seen = self.regs.setdefault("random", {}).setdefault(n, a)
                self.same(a, seen, 1e-12, "not-repeatable", "random state")
            if rho is not None:
                self.need(L.ops.num_qubits(rho) == n == L.ops.num_qubits(s), "wrong-state", "number of qubits")
                for x in (rho, rho2):
                    self.need(tuple(x.array.shape) == (2,) * (2 * n), "wrong-state", f"shape {x.array.shape}")
                    self.same(np.asarray(x.array).reshape(d, d), np.outer(a, a.conj()), self.TOL, "wrong-state", "density matrix")

        return call, check

    def op_structure(self, op, client):
        """Flattening, sizes and supports."""
        circ, cs = self.get_circ(op)
        L = self.lib
        if op.get("labels"):
            cs = relabel(cs, op["labels"])
            circ = L.circ(cs, max(op["labels"]) + 1)
        if isinstance(circ, list):
            circ = L.comp.OpSequence(circ)

        def call():
            flat = list(iter(circ))
            return flat, [g.qubit_support for g in flat], [g.n_qubits for g in flat], circ.qubit_support

        def check(res):
            gs = R.flat_gates(cs["gates"])
            self.need([describe_op(x) for x in res[0]] == [describe_op(self.lib.gate(g)) for g in gs], "wrong-structure", "flattened gates")
            for g, s, n in zip(gs, res[1], res[2]):
                w = support_of([g])
                self.need(list(s) == w and n == len(w), "wrong-support", f"{s}, {n} qubits, instead of {w}")
            self.need(list(res[3]) == support_of(gs), "wrong-support", f"{res[3]} of the circuit")

        return call, check


def describe_op(x, sparse=None):
    """Everything that identifies an operation, as plain data."""
    t = type(x).__name__
    if hasattr(x, "operations"):
        d = [t, [describe_op(y, sparse) for y in x.operations]]
        for k in ("n_qubits", "parameter"):
            if k in vars(x):
                d.append(str(vars(x)[k]))
        if "fparams" in vars(x):
            d.append([str(k) for k in x.fparams])
        return d
    d = [t]
    for k in ("generator_name", "target", "control", "param", "shift"):
        if k in vars(x):
            d.append(str(vars(x)[k]))
    d.append(bool(x.sparse) if sparse is None else sparse)
    d.append(str(x.noise))
    return d
