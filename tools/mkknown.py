"""Writes known_findings.json."""
import json
import os

ENV = {"uuid": "real", "uuid_seed": 1, "clock": 1.0e9, "first": 0}
PROD = [{"kind": "product", "bits": "00"}]


def prim(k, t):
    return {"o": "prim", "g": {"k": k, "t": [t]}}


def case(gates, obs, v):
    op = {"op": "grad", "s": 0, "c": 0, "o": [0], "w": [1.0], "v": v, "mode": "gpsr", "via": "grad"}
    return {"n": 2, "states": PROD, "circs": [{"kind": "qc", "gates": gates, "fparams": []}], "obs": [{"o": "add", "x": [obs]}], "clients": [[op]], "env": ENV, "flavour": "known"}


def scale(p, x):
    return {"o": "scale", "p": p, "x": x}


F = [
    {"id": "gpsr-multi-gap", "property": "C03", "status": "known", "class": "wrong-gradient",
     "what": "parameter-shift gradient of a controlled rotation (generator with two gaps): H(1), RX('a', 0, control 1), observable X(1), a = 0.7",
     "spec": case([{"k": "H", "t": [1]}, {"k": "RX", "t": [0], "c": [1], "p": "a"}], prim("X", 1), {"a": 0.7})},
    {"id": "gpsr-shared-name", "property": "C03", "status": "known", "class": "wrong-gradient",
     "what": "parameter-shift gradient of a parameter used by a gate and by the observable: RX('a', 0), observable a*Z(0), a = 0.7",
     "spec": case([{"k": "RX", "t": [0], "p": "a"}], scale("a", prim("Z", 0)), {"a": 0.7})},
    {"id": "gpsr-cubic-observable", "property": "C03", "status": "known", "class": "wrong-gradient",
     "what": "parameter-shift gradient of a parameter the observable depends on with the third power: RX(0.7, 0), observable w*w*w*Z(0), w = 0.4",
     "spec": case([{"k": "RX", "t": [0], "p": 0.7}], scale("w", scale("w", scale("w", prim("Z", 0)))), {"w": 0.4})},
]
FIXED = """
C06 dedae29 the pytree of QuantumCircuit had children and static data swapped
C02 75a0938 Scale of an Add multiplied the operations instead of summing them
C11 31e9101 conversions to sparse and dense dropped operations of Scale and the feature parameters of circuits
C14 504154d the matrix of a sequence multiplied its operations in the reverse order of applying them
C14 87e68c2 the qubit support of a sequence was unordered for larger indices
C06 cbbadf9 density matrices were static data in compiled functions (unhashable, or stale results)
C01 b8e6e25 SQRTSWAP, ISWAP and ISQRTSWAP raised a KeyError when applied
C01 4f0be2a grouping moved gates across multi-target gates they do not commute with
C04 d4bdbbc sampling reshaped the density matrix of the caller in place
C06 bb217fb the spectral gap computed inside jit stayed on the gate as a leaked tracer
C06 47e06f2 PHASE gates could not be passed to compiled functions
C03 1f98919 parameter-shift gradients gave PHASE gates with a repeated parameter the generator I
C03 4ea6668 parameter-shift gradients of repeated parameters ignored them when the values had other names too
C03 07769ed parameter-shift gradients of observable parameters were off by pi/2
C08 cf59662 observables without a common eigenbasis were sampled in the wrong basis
C10 30f8bcb the order of parameter names depended on the hash seed of the process
C11 953ec48 parameter names listed fixed angles
C06 1ab0a76 controlled gates as observables of density matrices failed inside jit and parameter-shift gradients
C14 bc3649e matrices of gates with unordered targets had their rows and columns in the wrong order
C14 f5ba72a n_qubits of gates counted missing controls and not all targets and controls
C14 1d548ee overlap returned the real part of the squared amplitude, and failed for sparse states
C01 2a8d16c control qubits given as numpy integers were ignored
C06 5443604 sparse product states could not be used in compiled functions
C06 e512a89 sparse phase gates could not be used in compiled functions
C04 38209b7 a circuit shared its list of feature parameters with its caller, and the default one with all circuits
C05 78b6ed8 adjoint mode ignored the requested shots and returned exact values
C01 fdedcdf an empty sequence of gates raised a TypeError when applied
C05 13f053e noise accepted NaN as a probability
C05 781c485 observables outside of a density matrix gave a number instead of an error
C13 62919c1 probabilities of density matrices with one axis per qubit were a slice of the matrix
"""
for line in FIXED.strip().splitlines():
    prop, commit, what = line.split(" ", 2)
    F.append({"id": "fix-" + commit, "property": prop, "status": "fixed", "commit": commit, "what": what, "line": f"fixed: property={prop} {commit} {what}"})
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump({"findings": F}, f, indent=1)
