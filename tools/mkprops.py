"""Writes properties.jsonl (the text of the properties lives here)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [], "mechanism": mech, "observe_at": observe, "hook_needed": hook},
    })


def m(name, where):
    return {"name": name, "where": where}


CACHES = {"name": "cached gate data", "meaning": "spectra and gaps cached on gate objects shared by calls", "where": "horqrux/primitives/parametric.py"}
JITS = {"name": "module-level jitted functions", "meaning": "compiled results shared by every caller in the process", "where": "horqrux/primitives/parametric.py, horqrux/differentiation/gpsr/*.py, horqrux/shots.py"}

p("C01", "Every state evolution is exact, whatever ran before or concurrently",
  "Running a circuit, a gate sequence or single gates on a state vector or a density matrix returns exactly the state the definitions of its gates (controls and multi-qubit gates in any qubit order, parameters, adjoints, Hamiltonian evolution) and noise channels prescribe, in the order given, on dense and sparse arrays, with grouping and merging of gates on or off. The result depends only on the arguments: not on earlier calls (also failed ones), on objects being shared or reused with other values, or on what other threads of the process compute at the same time.",
  ["inputs", "programs", "histories", "schedules", "fault_sequences"],
  "for all circuits, states, values and ways to apply them, all call histories in one process, all interleavings of client threads at line granularity, all failed calls in between",
  "The tests evaluate fixed gates and some random circuits of a few qubits once, in a fresh object, on one thread; they do not mix control, noise, adjoint, grouping, merging and object reuse, and no test runs two calls at once or after a failed one.",
  ["horqrux/apply.py", "horqrux/api.py", "horqrux/primitives/primitive.py", "horqrux/primitives/parametric.py", "horqrux/noise/noise.py", "horqrux/analog.py", "horqrux/composite/sequence.py", "horqrux/circuit.py", "horqrux/utils/operator_utils.py"],
  [m("gate application by einsum/tensordot over target and control axes", "horqrux/apply.py: apply_operator, apply_operator_with_noise, apply_kraus"), m("merging and grouping of gates", "horqrux/apply.py: merge_operators, group_by_index"), m("state kinds", "horqrux/utils/operator_utils.py: DensityMatrix")],
  ["run", "apply_gates", "calling a gate, sequence or circuit"], [CACHES])

p("C02", "Every exact expectation value equals Tr(rho O) in every mode and history",
  "Without shots, expectation returns for each observable of the list, in its order, the real part of the trace of the observable with the exactly evolved state, for observables built from (controlled) gates by products, sums and scaling with numbers or parameters, for state vectors and density matrices, in each differentiation mode that accepts the input and with values given flat or separately for circuit and observables. The numbers do not depend on the mode, on the other observables of the list, on what was computed before, or on concurrent calls.",
  ["inputs", "programs", "histories", "schedules", "fault_sequences"],
  "for all circuits, states, observables, values, modes and observable lists; all histories and interleavings of calls sharing these objects",
  "The tests compare a handful of circuits and observables between modes; sums inside scales, controlled observables, repeated observables, noise with each mode, values under other names and reuse of objects across calls are not sampled, and nothing runs concurrently.",
  ["horqrux/api.py", "horqrux/composite/compose.py", "horqrux/composite/sequence.py", "horqrux/differentiation/ad.py", "horqrux/differentiation/adjoint.py", "horqrux/differentiation/gpsr/analytical.py"],
  [m("dispatch on mode and state kind", "horqrux/api.py: expectation"), m("observable application", "horqrux/composite/compose.py: Observable, Add, Scale"), m("exact expectation", "horqrux/differentiation/ad.py: _ad_expectation_single_observable")],
  ["expectation", "calling an observable"])

p("C03", "Every exact gradient equals the true derivative, in all modes and histories",
  "Without shots, first derivatives of expectation values with respect to circuit and observable parameters equal the true derivative in automatic, adjoint and parameter-shift mode, through gradient, Jacobian and forward-mode transformations and through the direct parameter-shift gradient function (one row per parameter, in the order of the values); second derivatives are right where they are offered. This includes parameters used by several gates or by gates and observables, parameters that occur nowhere (derivative zero), noise and density matrices where the mode accepts them, and holds independently of earlier and concurrent calls.",
  ["inputs", "programs", "histories", "schedules", "fault_sequences"],
  "for all parametrised circuits, observables, values, modes and transformations; all histories and interleavings of calls",
  "The tests differentiate a few fixed ansatz circuits; repeated parameters under other names, phase gates, observable parameters, unused parameters, compiled and uncompiled use of the same gates one after another are not covered.",
  ["horqrux/differentiation/adjoint.py", "horqrux/differentiation/ad.py", "horqrux/differentiation/gpsr/analytical.py", "horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/primitives/parametric.py"],
  [m("custom derivative rules", "horqrux/differentiation/adjoint.py, horqrux/differentiation/gpsr/analytical.py"), m("shift rule and renaming of repeated parameters", "horqrux/differentiation/gpsr/gpsr_utils.py"), m("spectral gap of gates", "horqrux/primitives/parametric.py: spectral_gap")],
  ["jax.grad / value_and_grad / jacobian / jvp / hessian of expectation", "analytical_gpsr_bwd"], [CACHES, JITS])

p("C04", "No call ever modifies an object of its caller, not even transiently",
  "States, density matrices, circuits, gates, observables, value dictionaries and lists handed to the library hold exactly the same content and the same elements during and after every call, whether it returns, raises, is interrupted or runs out of memory, so that another thread using the same objects never sees anything else. What a call returns is independent of the caller's objects: writing to the result changes none of them.",
  ["inputs", "histories", "schedules", "crash_points", "fault_sequences"],
  "for all calls and arguments, at every preemption point inside a call, after every failed or interrupted call",
  "A test sees an argument only if it happens to use it again afterwards; no test compares arguments before, during and after calls, and none lets a call fail half way.",
  ["horqrux/api.py", "horqrux/shots.py", "horqrux/apply.py", "horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/circuit.py", "horqrux/composite/sequence.py", "horqrux/utils/operator_utils.py"],
  [m("arguments are used read-only or copied", "horqrux/shots.py, horqrux/api.py: sample"), m("altered copies of gate sequences", "horqrux/differentiation/gpsr/gpsr_utils.py: alter_gate_sequence, create_renamed_operators")],
  ["every public function"])

p("C05", "Failures surface, leave nothing behind, and never stall other callers",
  "A call hit by an interrupt or by memory exhaustion raises that error (or completes correctly), and invalid requests - non-positive shot counts, missing parameter values, unknown modes, impossible noise probabilities, unsupported combinations - raise an error of the documented kind instead of returning numbers. No failed call changes the outcome of any later or concurrent call, the failed call itself succeeds when repeated, and no failure leaves a lock held or a caller waiting: every call ends in a bounded number of steps.",
  ["fault_sequences", "crash_points", "histories", "schedules", "inputs"],
  "for all operations, all points at which an interrupt or an allocation failure can strike, all later operations, all interleavings",
  "Tests never interrupt a call or let an allocation fail, and check invalid arguments only in isolation, never what a failed call leaves behind in module-level compiled functions, caches and shared gate objects.",
  ["horqrux/api.py", "horqrux/shots.py", "horqrux/noise/noise.py", "horqrux/differentiation/adjoint.py", "horqrux/differentiation/gpsr/shots.py", "horqrux/primitives/parametric.py", "horqrux/composite/compose.py"],
  [m("argument validation", "horqrux/api.py: sample, expectation; horqrux/noise/noise.py: DigitalNoiseInstance; horqrux/shots.py: finite_shots"), m("no module state is written by calls", "horqrux/*.py"), m("cached properties are written only when complete", "horqrux/primitives/parametric.py")],
  ["every public function, after a failure"], [CACHES, JITS])

p("C06", "Transformed and compiled calls equal direct calls, also in mixed histories",
  "Running circuits, expectation values and their gradients under compilation, vectorisation over values or states, loops and differentiation gives what the direct calls give for each element, with states, density matrices, circuits, gates and observables closed over or passed as arguments, and after taking them apart and rebuilding them as trees. A compiled function called again with other objects, values or array types answers for what it is given now, and tracing, finished or aborted, leaves nothing behind that changes or breaks later uses of the same objects, direct or compiled, on any thread.",
  ["inputs", "programs", "histories", "schedules", "fault_sequences"],
  "for all transformations, all orders of compiled and direct calls that share objects, all interleavings and aborted traces",
  "The tests compile a few fixed functions once each; they never pass circuits or observables as arguments of a compiled function twice with different content, mix direct and compiled use of the same gates, or abort a trace.",
  ["horqrux/circuit.py", "horqrux/composite/sequence.py", "horqrux/composite/compose.py", "horqrux/primitives/primitive.py", "horqrux/primitives/parametric.py", "horqrux/noise/noise.py", "horqrux/utils/operator_utils.py", "horqrux/differentiation/gpsr/analytical.py", "horqrux/shots.py"],
  [m("pytree registration with static data that identifies the object", "tree_flatten and tree_unflatten of gates, sequences, circuits, observables, density matrices"), m("caches hold no tracers", "horqrux/primitives/parametric.py")],
  ["jax.jit, vmap, lax.scan, grad of the public functions", "jax.tree_util on the public objects"], [CACHES, JITS])

p("C07", "Sampling draws exactly the requested shots from the exact distribution",
  "Sampling returns one count per observed bitstring (one character per qubit, first qubit first, positive counts only) that sum to the requested number of shots; bitstrings of zero probability never occur and the counts are independent draws from the Born distribution of the exactly evolved state, for state vectors and density matrices with and without noise. This holds for any number of shots and any random stream, whatever calls came before or run concurrently.",
  ["inputs", "programs", "histories", "schedules", "fault_sequences"],
  "for all circuits, states, shot numbers, random streams, histories and interleavings",
  "The tests sample a few easy states (uniform, product, one fixed random circuit) with one fixed stream and loose comparisons; other streams cannot be reached through the public interface, and mixed states with noise, qubit order and joint distributions are not checked.",
  ["horqrux/api.py", "horqrux/utils/operator_utils.py"],
  [m("probabilities and sampling", "horqrux/utils/operator_utils.py: probabilities, sample_from_probs"), m("state kinds", "horqrux/api.py: sample")],
  ["sample"])

p("C08", "Shot estimates are unbiased, in the spectrum, and as noisy as their shots",
  "With shots, expectation returns for each observable of the list, in its order, the mean of exactly that number of measurement outcomes, each an eigenvalue of that observable for the given values, drawn with the probabilities of the exactly evolved state: estimates are unbiased and their variance is that of independent shots, for state vectors and density matrices. This holds for observables that do not commute with each other, for repeated observables, scaled or summed ones and parametrised ones, in each mode that supports shots, compiled or not, whatever ran before or runs concurrently.",
  ["inputs", "programs", "histories", "schedules", "fault_sequences"],
  "for all circuits, states, lists of observables, values, shot numbers and keys, histories and interleavings",
  "The tests compare single estimates of commuting observables to exact values with a loose tolerance and many shots: bias of several percent, wrong variance, outcomes outside the spectrum and lists of observables in different bases pass.",
  ["horqrux/shots.py", "horqrux/api.py", "horqrux/differentiation/gpsr/shots.py", "horqrux/composite/sequence.py", "horqrux/composite/compose.py"],
  [m("diagonalisation and sampling per observable", "horqrux/shots.py: finite_shots, align_eigenvectors, to_matrix"), m("dispatch with shots", "horqrux/api.py: expectation")],
  ["expectation with n_shots"], [JITS])

p("C09", "Gradients from shots are unbiased, with independent noise per parameter",
  "In parameter-shift mode with shots, the derivative reported for each parameter of gates or observables, through differentiation of the expectation and through the direct gradient function (one row per parameter, in the order of the values), has the true derivative as its mean over keys, also when several gates share the parameter; for a parameter that occurs nowhere the mean is zero. Its variance is that of the shifted evaluations with the requested shots, and the noise of different parameters, of both shifts and of gates that share a parameter is independent.",
  ["inputs", "programs", "histories", "schedules", "fault_sequences"],
  "for all parametrised circuits, observables, values, keys and shot numbers, histories and interleavings",
  "The tests compare one estimate with very many shots to the exact gradient with a loose tolerance; reuse of randomness between parameters or shifts and small biases are invisible to that, and repeated parameters occur in one fixed circuit.",
  ["horqrux/differentiation/gpsr/shots.py", "horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/shots.py"],
  [m("shift rule on shot estimates with split keys", "horqrux/differentiation/gpsr/shots.py: finite_shots_gpsr_backward, finite_shots_jvp"), m("repeated parameters", "horqrux/differentiation/gpsr/gpsr_utils.py")],
  ["jax.grad of expectation with n_shots", "finite_shots_gpsr_backward"], [JITS])

p("C10", "Results depend on arguments and keys only, in every process and schedule",
  "Every result, random ones included, is a function of the call's arguments: the same call with the same key returns the same numbers in any interleaving, after any history, in any process, and whatever the hash seed, the clock, the entropy of the host or its other random generators. Different keys give different draws. No call reads or changes the random state of the host or process-wide settings.",
  ["schedules", "histories", "configurations", "fault_sequences", "inputs"],
  "for all calls, pairs of schedules, histories, processes, hash seeds, clocks and host random states",
  "Each test runs once, in one order, in one process, under one hash seed and clock; no test compares a call to itself under different circumstances.",
  ["horqrux/shots.py", "horqrux/api.py", "horqrux/differentiation/gpsr/shots.py", "horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/utils/operator_utils.py", "horqrux/circuit.py", "horqrux/_misc.py"],
  [m("explicit keys", "horqrux/shots.py, horqrux/differentiation/gpsr/shots.py"), m("fixed key of sample", "horqrux/utils/operator_utils.py: sample_from_probs"), m("ordered names", "horqrux/composite/sequence.py: param_names")],
  ["every public function, in two processes or schedules"], [JITS])

p("C11", "Parameter names are fresh, complete and listed in order of first use",
  "The ansatz builder gives each of its parametrised gates a name that no other gate has, also when several threads build at once, after the host random generators are reseeded and after the process restarts; names carry the requested prefix and gates come in the documented layout. Circuits report each parameter name once, in order of first use, without fixed angles, and the variational ones without the feature parameters, so that values assigned by position reach the gate they are meant for.",
  ["schedules", "histories", "inputs", "programs", "crash_points"],
  "for all circuits and ansatz sizes, all interleavings of builders, all restarts and reseedings in between",
  "The tests count gates and parameters of one ansatz; they never build concurrently, reseed, restart, or look at the order of names.",
  ["horqrux/circuit.py", "horqrux/composite/sequence.py"],
  [m("uuid names", "horqrux/circuit.py: hea, global_entangling"), m("names of a circuit", "horqrux/composite/sequence.py: param_names; horqrux/circuit.py: vparams, n_vparams")],
  ["hea", "param_names, vparams, n_vparams of circuits"])

p("C12", "Training resumed after crashes follows the uninterrupted trajectory",
  "An optimisation loop that checkpoints its parameter values by position and is killed at any point, then restarted in a new process that rebuilds circuits, ansatz and observables and continues from the last checkpoint, goes through the same losses and parameters as the loop that was never interrupted, in every differentiation mode and with shots (keys derived from the step), and finishes once crashes stop. The result does not depend on what other jobs in the process do.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "for all kill points inside steps and checkpoint writes, all sequences of restarts, all interleavings with other jobs",
  "The tests train once, in one process, without restart, and check only that the loss goes down.",
  ["horqrux/api.py", "horqrux/circuit.py", "horqrux/composite/sequence.py", "horqrux/differentiation/adjoint.py", "horqrux/differentiation/gpsr/analytical.py", "horqrux/differentiation/gpsr/shots.py"],
  [m("no state outside the caller's objects", "horqrux/*.py"), m("stable order of parameters", "horqrux/composite/sequence.py: param_names"), m("keys are arguments", "horqrux/differentiation/gpsr/shots.py")],
  ["loss and parameters after each step"])

p("C13", "Long-lived registers stay physical and exact, and reading never disturbs",
  "A state that is evolved step by step through any number of circuits, with the output of each call being the input of the next, remains normalised (a density matrix remains Hermitian, positive and of trace one) and equal to the exact state of the whole history. Reading it by sampling, expectation values or probabilities in between gives the exact distribution of that moment and changes nothing, and a failed or aborted step leaves it as it was.",
  ["histories", "inputs", "programs", "schedules", "fault_sequences"],
  "for all sequences of circuits, reads, failures and repetitions on one register, interleaved with other registers",
  "The tests apply one circuit to one state and stop; representations drifting apart between steps, reads in between and failures in between do not occur.",
  ["horqrux/apply.py", "horqrux/api.py", "horqrux/noise/noise.py", "horqrux/utils/operator_utils.py", "horqrux/primitives/primitive.py"],
  [m("outputs have the form of inputs", "horqrux/apply.py, horqrux/primitives/primitive.py"), m("trace-preserving channels", "horqrux/noise/noise.py")],
  ["run, apply_gates, sample, expectation on a register"])

p("C14", "Matrices, conversions and state utilities agree with what calls do",
  "The matrix of a gate, sequence, circuit or observable, on its own qubits or on any larger set, is the operator that applying it realises, for controlled and multi-qubit gates in any qubit order, dense and sparse, and adjoint matrices are its conjugate transpose. Converting to sparse and back loses nothing: kinds, qubits, parameters, noise, scale factors and feature parameters are kept, as are order and content when a nested circuit is flattened. Prepared states are the ones named, density matrices of pure states are their projectors, and overlaps are squared moduli of inner products, blind to a global phase; all this whatever ran before or runs concurrently.",
  ["inputs", "programs", "histories", "schedules", "fault_sequences"],
  "for all gates, circuits, observables, states, supports and conversions; all histories and interleavings of calls sharing these objects",
  "The tests check a few matrices of symmetric gates in sorted order and conversions of single gates; sequences, scaled sums, unordered targets and supports, circuits with feature parameters and complex overlaps are not covered.",
  ["horqrux/primitives/primitive.py", "horqrux/composite/sequence.py", "horqrux/composite/compose.py", "horqrux/utils/operator_utils.py", "horqrux/utils/conversion.py", "horqrux/analog.py"],
  [m("matrix forms", "horqrux/primitives/primitive.py, horqrux/composite/*.py: tensor"), m("controls and larger supports", "horqrux/utils/operator_utils.py: controlled, expand_operator, permute_basis"), m("conversions", "horqrux/utils/conversion.py")],
  ["tensor", "dagger", "to_sparse, to_dense", "overlap, equivalent_state", "product_state, density_mat"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            assert 1 <= x["statement"].count(". ") + 1 <= 3, x["id"]
            f.write(json.dumps(x) + "\n")
