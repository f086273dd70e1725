"""Source of properties.jsonl (python3 tools/properties.py rewrites it)."""
import json
import os

A = "horqrux/apply.py"
PR = "horqrux/primitives/primitive.py"
PA = "horqrux/primitives/parametric.py"
OU = "horqrux/utils/operator_utils.py"
NO = "horqrux/noise/utils_noise.py"
NT = "horqrux/noise/noise.py"
SQ = "horqrux/composite/sequence.py"
CO = "horqrux/composite/compose.py"
CI = "horqrux/circuit.py"
API = "horqrux/api.py"
SH = "horqrux/shots.py"
AD = "horqrux/differentiation/ad.py"
AJ = "horqrux/differentiation/adjoint.py"
GA = "horqrux/differentiation/gpsr/analytical.py"
GS = "horqrux/differentiation/gpsr/shots.py"
GU = "horqrux/differentiation/gpsr/gpsr_utils.py"
MA = "horqrux/matrices.py"
CV = "horqrux/utils/conversion.py"
VU = "horqrux/utils/values_utils.py"
SP = "horqrux/utils/sparse_utils.py"
AN = "horqrux/analog.py"


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors,
    }


PROPS = [
    prop(
        "C01", "A gate acts on a state vector as its controlled matrix",
        "Applying any gate to a state vector returns exactly the state obtained by multiplying it with the gate's matrix on the target qubits, in the order in which the targets are given, when all control qubits are 1, and leaves every other amplitude unchanged. This holds for every state, every angle, every choice and order of distinct targets and controls, and for every way of applying a gate (calling it, applying a list of gates, running a circuit).",
        ["inputs", "programs"], "all state vectors, all parameter values, all gates, all ordered placements of targets and controls",
        "The tests sample random states and a few fixed qubit placements and mostly compare horqrux with its own algebra; the claim is over all amplitudes, angles and placements.",
        [A, PR, PA, OU, API, SQ],
        [("tensor contraction of the operator with the state's axes", f"{A}: _apply_gate_statevector, apply_operator"),
         ("controlled operator with an identity block", f"{OU}: _controlled"),
         ("dispatch on the state representation", f"{A}: apply_gates"),
         ("calling a gate or a circuit", f"{PR}: Primitive.__call__, {API}: run")],
        observe=["value of run(circuit, state, values)", "value of gate(state, values)"],
    ),
    prop(
        "C02", "Gates have their documented matrices, adjoints and derivatives",
        "For every gate of the library and every angle, the matrix a gate reports is the documented unitary (so it is unitary, rotations are exp(-i angle/2 times the Pauli matrix), the phase gate is diag(1, e^(i angle))), its dagger is the conjugate transpose and its jacobian is the derivative of the matrix with respect to the angle. Controlled versions add an identity block and change nothing else.",
        ["inputs", "configurations"], "all gates, all angles (symbolic), all numbers of controls within the bound",
        "Tests compare a handful of angles with the package's own constants; a wrong sign or convention that is used consistently goes unnoticed.",
        [MA, OU, PR, PA],
        [("matrix constants", MA), ("closed form of the rotations", f"{OU}: _unitary, _jacobian, _dagger, _controlled"),
         ("gate factories", f"{PR}, {PA}"), ("PHASE matrix and its derivative", f"{PA}: _PHASE")],
    ),
    prop(
        "C03", "Density matrices evolve as U rho U^dagger",
        "Applying noiseless gates or a circuit to a density matrix returns U rho U^dagger for the circuit's unitary U. In particular evolving the density matrix of a pure state gives the density matrix of the evolved state, so state-vector and density-matrix simulation never disagree.",
        ["inputs", "programs"], "all matrices rho (symbolic entries, not only states), all angles, all placements of targets and controls",
        "The tests try product and random states on fixed circuits; agreement must hold for each index permutation of bra and ket axes, which only unsymmetric matrices and unsorted qubits expose.",
        [A, OU, PR],
        [("operator acting on ket and bra axes", f"{A}: _apply_gate_density_matrix, apply_operator_dm"),
         ("dagger and index bookkeeping", f"{A}: apply_density_mat"), ("density matrix type", f"{OU}: DensityMatrix, density_mat")],
    ),
    prop(
        "C04", "Noise channels are the documented trace-preserving maps",
        "Each of the supported noise types (bit flip, phase flip, depolarizing, Pauli, amplitude damping, phase damping, generalized amplitude damping) maps a density matrix to the documented combination of its Kraus operators, on the qubit it is attached to and no other, for every admissible probability. The map preserves the trace and leaves Hermitian matrices Hermitian.",
        ["inputs", "configurations"], "all density matrices, all error probabilities in their admissible range, all qubits of the register",
        "Tests take a few probabilities and compare with the package's own Kraus operators; only the |0><0| state for several channels.",
        [NO, NT, A],
        [("Kraus operators per noise type", f"{NO}: BitFlip, PhaseFlip, PauliChannel, Depolarizing, AmplitudeDamping, PhaseDamping, GeneralizedAmplitudeDamping"),
         ("sum of Kraus maps", f"{A}: apply_kraus_operator and apply_operator_with_noise")],
    ),
    prop(
        "C05", "Noise accepts exactly the admissible probabilities",
        "A noise channel is built when, and only when, its probabilities are admissible: each within [0, 1], and for the Pauli channel a sum within [0, 1] as well. Any other probability is refused with a ValueError, and no admissible boundary value is refused.",
        ["inputs"], "all real probabilities (also negative and above one), all noise types",
        "Tests try one or two bad values per channel and no boundary.",
        [NO], [("validation of the arguments", f"{NO}: every channel constructor")],
    ),
    prop(
        "C06", "A noisy gate is the gate followed by its channels in order",
        "A gate with noise acts on a density matrix as the gate followed by each attached channel, in the order listed, on the gate's target qubit; a pure state is promoted to its density matrix first. A channel with zero probability has no effect, and noise on one gate does not change how the other gates of the circuit act.",
        ["inputs", "programs", "configurations"], "all states and density matrices, all angles, circuits with noisy gates at any position with any combination of channels",
        "Tests attach one channel at a time to one gate; order of channels, controlled noisy gates and mixed circuits are not covered.",
        [A, PR, NT, NO],
        [("noise protocol of a gate", f"{PR}: Primitive.noise"), ("promotion to a density matrix and composition", f"{A}: apply_gates, _apply_gate_noisy")],
    ),
    prop(
        "C07", "A circuit applies its operations once each, in order",
        "Running a circuit or a sequence of operations gives the composition of its operations in the listed order, for state vectors and density matrices alike. Nesting sequences inside sequences, iterating over a circuit, handing the operations over as a list, a tuple or an iterator, or leaving a sequence empty does not change that meaning. Called without a state, gates, sequences, circuits, sums and observables start from the all-zero state of their qubits.",
        ["programs", "inputs"], "all sequences up to the bound, all nesting shapes, all states, all angles",
        "Tests use short commuting or single gate lists; reordering, dropping or duplicating an operation in a nested sequence is not observed.",
        [SQ, A, CI, API],
        [("iteration over nested operations", f"{SQ}: OpSequence.__iter__, {CO}"), ("application of gate lists", f"{A}: apply_gates"), ("circuit type", f"{CI}: QuantumCircuit")],
    ),
    prop(
        "C08", "Merging or regrouping gates does not change what is computed",
        "The transformations meant to speed up a circuit, regrouping gates by qubit and merging operators acting on shared qubits, leave the action of the gate list on every state unchanged. Regrouping returns every gate exactly once.",
        ["programs", "inputs"], "all gate lists up to the bound, including symbolic qubit indices, all states, all operator entries",
        "Tests use a single hand-picked gate list; whether two gates may be exchanged depends on their supports, hence on all pairs of placements.",
        [A], [("regrouping by qubit", f"{A}: group_by_index"), ("merging overlapping operators", f"{A}: merge_operators")],
    ),
    prop(
        "C09", "The matrix form of an operator agrees with its action",
        "The dense matrix obtained from a gate, a sequence or a composed operator, multiplied onto a state, gives the same result as applying the operator, with qubit 0 as the most significant one. When a larger set of qubits is asked for, the matrix is the same operator tensored with identities, whatever the order of targets, controls and support.",
        ["programs", "inputs", "configurations"], "all gates and composed operators within the bounds, all ordered supports containing the operator's qubits, all states",
        "Tests check a few fixed supports, mostly sorted ones; the result depends on permutations of targets, controls and requested support.",
        [PR, SQ, CO, OU],
        [("expansion to a larger support", f"{OU}: expand_operator and permutation of the basis"), ("matrix of a gate", f"{PR}: Primitive.tensor"), ("matrix of compositions", f"{SQ}, {CO}: tensor")],
    ),
    prop(
        "C10", "Scaled and summed operators act linearly",
        "An operator multiplied by a number or a named parameter, a sum of operators, and any nesting of the two act on a state vector exactly as the corresponding linear combination of their parts. Adding, scaling or nesting never drops, repeats or reorders a part.",
        ["programs", "inputs"], "all expressions built from gates, products, sums and factors up to the bound, all states, all parameter values",
        "Tests cover one level of nesting with fixed factors.",
        [CO, SQ], [("factor", f"{CO}: Scale"), ("sum", f"{CO}: Add"), ("observable", f"{CO}: Observable")],
    ),
    prop(
        "C11", "Expectation values are <psi|O|psi> and tr(O rho), in order",
        "The expectation of a list of observables is, for each one in the order given, <psi|O|psi> of the circuit's output, or tr(O rho) for a density matrix, and both agree for pure states. Parameters of circuit and observables may be given together or separately, and the exact modes (automatic, adjoint, parameter shift) return the same values.",
        ["inputs", "programs", "configurations"], "all states and density matrices, all circuits, observables (sums, products, factors, parameters) and parameter values within the bounds",
        "Tests compare modes among each other on one or two circuits with Pauli-Z sums.",
        [API, AD, AJ, GA, CO, VU],
        [("value per observable", f"{AD}: _ad_expectation_single_observable"), ("overlap with the transformed state or trace", f"{OU}"), ("separate values", f"{VU}: _values_processing"), ("dispatch on the mode", f"{API}: expectation")],
    ),
    prop(
        "C12", "Sparse computation returns the dense results",
        "Building gates, circuits, observables and states in sparse form and computing with them (application, matrices, expectation values, forward-mode gradients) returns the same numbers as the dense computation.",
        ["inputs", "programs", "configurations"], "all gates, placements, angles, states and circuits within the bounds",
        "Tests compare a few random gates in sparse form; controlled and composed sparse operators are sampled at fixed placements.",
        [A, OU, PR, PA, CO, SQ, SP, CV],
        [("sparse application", f"{A}"), ("sparse matrices", f"{PR}, {PA}, {OU}"), ("sparse helpers", SP)],
    ),
    prop(
        "C13", "Dense-sparse conversion preserves the operator",
        "Converting an operator or circuit to sparse or to dense form keeps everything else about it: structure, order, qubits, controls, parameters, shifts, noise and feature parameters. Converting back and forth returns an operator with the same action, and converting twice is the same as converting once.",
        ["programs", "inputs"], "all gates, sequences, circuits, observables and nested compositions within the bounds",
        "Tests convert one circuit and look at the flags of its gates.",
        [CV], [("recursive conversion", f"{CV}: to_sparse, to_dense")],
    ),
    prop(
        "C14", "Automatic differentiation of expectations is exact",
        "Gradients, Jacobians (forward and reverse mode) and Hessians of expectation values with respect to circuit and observable parameters are the exact derivatives of the expectation value, for state vectors and density matrices, with and without noise. Derivatives of parameters given separately for circuit and observables are returned separately.",
        ["inputs", "programs", "configurations"], "all states, all parameter values, circuits and observables within the bounds, all differentiation transforms of jax",
        "Tests compare with other modes at single points on one circuit.",
        [AD, API, PA, OU, A],
        [("custom derivative rules, if any", AD), ("traceable gate application", A)],
    ),
    prop(
        "C15", "Adjoint differentiation returns exact values and gradients",
        "In adjoint mode the expectation values and their gradients with respect to every named parameter are exact, for circuits in which a parameter occurs several times, in controlled gates, or not at all. Density matrices are refused with a TypeError.",
        ["inputs", "programs"], "all states, all parameter values, circuits and observables within the bounds",
        "Tests compare with automatic differentiation at one point on one circuit.",
        [AJ, API], [("forward and backward sweep", f"{AJ}: adjoint_expectation_single_observable_fwd/bwd"), ("refusal of density matrices", f"{API}: expectation")],
    ),
    prop(
        "C16", "Parameter-shift rules return exact values and gradients",
        "In parameter-shift mode without shots the expectation values and all gradients are exact, also when a parameter is used in several gates, controlled gates, phase gates, or when values are given that the circuit does not use. This holds for state vectors, density matrices and noisy circuits, forward and reverse mode.",
        ["inputs", "programs"], "all states, all parameter values, circuits within the bounds",
        "Tests compare with automatic differentiation at one point on one circuit.",
        [GA, GU, PA, API], [("shift rule and spectral gap", f"{GA}, {GU}, {PA}: spectral_gap"), ("repeated parameters", f"{GU}: alter_gate_sequence, create_renamed_operators")],
    ),
    prop(
        "C17", "Sampling follows the Born probabilities",
        "Sampling a circuit draws each bitstring with its Born probability in the evolved state or density matrix, reading qubit 0 as the first character, with independent draws. The counts add up to the number of shots, and fewer than one shot is refused with a ValueError.",
        ["inputs", "programs", "histories"], "all states and mixed states, all circuits within the bounds, all outcomes of the random draws",
        "Tests look at one seed of two or three states; the distribution as a function of the state cannot be sampled.",
        [API, OU], [("probabilities", f"{OU}: probabilities"), ("drawing and formatting", f"{OU}: sample_from_probs"), ("validation", f"{API}: sample")],
    ),
    prop(
        "C18", "Finite-shot expectations and gradients are unbiased",
        "With a positive number of shots, the mean over the random draws of the estimated expectation value of every observable, and of its parameter-shift gradient, is the exact value, for state vectors and density matrices; every estimate lies within the spectrum of the observable. A negative number of shots is refused with a ValueError, zero shots give the exact value.",
        ["inputs", "programs", "histories"], "all states, all circuits and observables within the bounds, all outcomes of the draws",
        "Tests compare one seed with the exact value within a tolerance of ten percent.",
        [SH, GS, GU, API], [("eigenbasis of the observables and sampling", f"{SH}: finite_shots"), ("estimates of the gradient", GS)],
    ),
    prop(
        "C19", "Parameters are bound by name and accounted for",
        "A named parameter takes the value given under its name, whatever the order of the dictionary and whatever other entries it has; a numeric angle takes none, and a missing name is an error. The parameter names, variational and feature parameters a circuit reports are exactly those its operations use, and the hardware-efficient ansatz has the documented layout with a fresh parameter for every rotation.",
        ["inputs", "programs", "configurations"], "all values, all dictionaries over a set of names, all circuits within the bounds, all ansatz sizes within the bounds",
        "Tests use one dictionary in circuit order; the ansatz is never checked for layout.",
        [PA, CI, SQ, VU, CO], [("reading a parameter", f"{PA}: parse_values"), ("names in a sequence", f"{SQ}: param_names"), ("feature and variational parameters", f"{CI}: vparams, n_vparams"), ("ansatz", f"{CI}: hea")],
    ),
    prop(
        "C20", "Compilation, batching and pytree passage change no results",
        "Compiling with jit, batching with vmap over values or states, and passing gates, circuits, observables and density matrices through jax's pytree operations (as arguments, by flattening and unflattening, through scan) give the same results as the plain computation. All attributes that determine the behaviour of an object survive the passage.",
        ["inputs", "programs", "configurations"], "all states and values, circuits and observables within the bounds, each transform",
        "Tests jit one training step; nothing checks the objects after a pytree round trip.",
        [PR, PA, CI, SQ, CO, OU, NT], [("tree_flatten and tree_unflatten of every class", f"{PR}, {PA}, {SQ}, {CO}, {CI}, {OU}: DensityMatrix, {NT}"), ("trace-safe code", f"{A}")],
    ),
    prop(
        "C21", "Hamiltonian evolution is exp(-iHt) on its qubits",
        "Evolving a state under a Hamiltonian for a time applies the matrix exponential of -i times the Hamiltonian times the time on the target qubits, in the order they are given and under the given controls, for state vectors and density matrices. Hamiltonian and time are read from the values given, so evolving for no time changes nothing and evolving twice adds the times.",
        ["inputs", "programs"], "all Hamiltonians, all times, all states, all placements of targets and controls within the bounds",
        "Tests compare one Hamiltonian and one random state with the package itself.",
        [AN, A, PR], [("exponential", f"{AN}: _HamiltonianEvolution._unitary"), ("application", A)],
    ),
    prop(
        "C22", "States, overlaps and probabilities are what they say",
        "The state constructors return the normalised states they name, with qubit 0 first; overlap is |<a|b>|^2; probabilities are the squared moduli of the amplitudes, or the diagonal of a density matrix; the density matrix of a state is its outer product with its conjugate; the tests for normalisation and for equality up to a global phase answer correctly. This holds for every state and number of qubits, complex amplitudes included.",
        ["inputs", "configurations"], "all state vectors and density matrices, all bitstrings, register sizes within the bound",
        "Tests check one or two real states.",
        [OU], [("constructors", f"{OU}: zero_state, product_state, uniform_state, random_state"), ("overlap, inner, probabilities, density_mat, is_normalized, equivalent_state", OU)],
    ),
    prop(
        "C23", "Computations do not change their inputs and are repeatable",
        "No operation of the package changes the states, circuits, observables or dictionaries passed to it. Repeating a computation with the same arguments, in any order with other computations and including sampling with the same key, returns the same result.",
        ["histories", "inputs"], "all states and values, histories of public calls within the bounds",
        "Tests run each call once and never look at the arguments afterwards.",
        [API, SH, A, GU, GS, OU], [("functional updates", f"{A}"), ("random keys", f"{API}, {SH}, {GS}, {OU}: sample_from_probs"), ("renaming of repeated parameters on copies", GU)],
    ),
    prop(
        "C24", "Operations report qubits, spectrum and equality truthfully",
        "An operation's qubit_support is exactly the sorted set of its targets and controls, n_qubits their number, and it leaves every other qubit alone; compositions report the union of their parts. The eigenvalues l that a parametric gate reports for its generator give the eigenvalues exp(-i theta l / 2) of its (controlled) matrix, with multiplicity, at every angle, and a single spectral gap makes the two-term shift rule exact for every state and observable. Two operations, compositions, circuits or noise instances compare equal exactly when they are built from the same parts, and then act equally.",
        ["inputs", "configurations"], "all placements of targets and controls within the registers, all angles, states and observables, all pairs of objects within the menus",
        "Tests never compare two objects that differ in one attribute, and read the reported spectrum for one gate.",
        [PR, PA, SQ, CO, CI, NT], [("support and names", f"{PR}: Primitive.qubit_support, n_qubits, name"), ("spectrum", f"{PA}: eigenvals_generator, spectral_gap"), ("equality", f"{CO}, {CI}, dataclass fields")],
    ),
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80
            f.write(json.dumps(p) + "\n")
