"""What each check covers and what lies outside; written into the evidence files and the manifest."""

GATES = "gates I X Y Z H S T SWAP SQRTSWAP ISWAP ISQRTSWAP RX RY RZ PHASE"

BOUNDS = {
    "C01": f"Every amplitude (complex, any norm) and every angle symbolic. {GATES}: every target and control placement on 1-3 qubits (quick thins a few), seeded placements on 4-6 (7) qubits, operators with symbolic entries on 1-3 targets and 0-3 controls on up to 6 qubits; called, via apply_gates, via run; every accepted way of writing indices. Registers of 8-12 (14) qubits with up to 6 controls, where twelve seeded basis positions carry symbolic amplitudes and the rest are zero (the map is linear). States of real dtype too. Outside: larger registers.",
    "C02": f"{GATES}: all library gates, dense and sparse, 0-3 controls, symbolic angle; matrix, dagger, jacobian, group law and derivative of the rotations. Outside: the jacobian of a controlled gate applied to a state.",
    "C03": "Every entry of a symbolic Hermitian matrix of 1-3 (4) qubits and every angle; all library gates, operators with symbolic entries at selected placements, seeded circuits of up to 4 (6) gates on 2-4 (5) qubits, pure-state agreement. Larger registers (to 6 qubits) with a few symbolic entries. Hamiltonian evolutions among the gates; matrices of real dtype and integer values. Outside: more than 6 qubits.",
    "C04": "Symbolic Hermitian matrix or state, symbolic admissible probabilities; all seven channels, every qubit of registers of 1-3 (4) qubits, larger registers with a few symbolic entries. Outside: noise on two-target gates.",
    "C05": "Symbolic probabilities in [-1.5, 2.5] (so the boundaries 0 and 1 and their neighbourhoods are decided by the solver as real numbers); all seven channels, through the channel constructors and through gates, circuits and expectation values. Outside: probabilities given as non-numbers.",
    "C06": "Symbolic states, Hermitian matrices, angles; seeded circuits of 1-3 qubits and up to 5 (6) gates with one to three channels per gate, symbolic probabilities for ordered pairs of channels, controlled noisy gates; local circuits (many gates on one qubit) and larger registers with a few symbolic entries. Hamiltonian evolutions among the gates; matrices of real dtype and integer values. Outside: noise on two-target gates, sparse noisy gates.",
    "C07": "Symbolic states, Hermitian matrices, angles; seeded sequences of up to 6 (8) operations on 1-5 (6) qubits and all nesting shapes produced by the generator (depth 3), empty sequences included; 24-40 (60) gates on 2-4 qubits, local circuits of 8-14 gates, registers of 7-12 qubits with six symbolic amplitudes; gates given as list, tuple, iterator, generator, custom sequence, and used twice. Hamiltonian evolutions among the gates; states of real dtype and integer values; sequences of 70, 130, 260 (520) gates with two symbolic amplitudes. Outside: longer sequences.",
    "C08": "Lists of 2-4 (5) single-qubit gates on symbolic qubit indices (the solver enumerates every coincidence of qubits), operators with symbolic entries, seeded lists of up to 7 (9) gates on 2-4 (5) qubits with multi-qubit and up to three-control gates, local lists of 8-14 gates, 30-50 gates, registers up to 12 qubits with eight symbolic amplitudes. Hamiltonian evolutions among the gates. Outside: longer lists.",
    "C09": "Symbolic states and angles; library gates, sequences, Add, Scale, Observable on up to 3 (4) qubits, all ordered supports of up to 4 qubits that contain the operator, gates with 3-4 controls on 5 qubits, sums and circuits of lookalike gates, qubit indices with one to three digits. Hamiltonian evolutions among the gates. Outside: larger supports.",
    "C10": "Symbolic states, factors and angles; handwritten and seeded expressions of Scale, Add, OpSequence, nesting depth up to 3, on 1-3 qubits, on 4-5 (7) with two symbolic amplitudes; confusable parameter names, repeated terms. Hamiltonian evolutions among the gates; states of real dtype and integer values. Outside: Scale and Add applied to a DensityMatrix (not supported by the package).",
    "C11": "Symbolic states, Hermitian matrices, angles and factors; seeded circuits of up to 5 gates with 1-3 observables on 1-3 (4) qubits; run modes ad, adjoint, gpsr; joint and separate values; 5-8 (9) qubits with a few symbolic amplitudes. Hamiltonian evolutions among the gates; states of real dtype and integer values. Outside: non-Hermitian observables in adjoint mode.",
    "C12": "Symbolic amplitudes of BCOO states (also with absent entries), symbolic angles; all library gates at placements on 1-3 qubits, seeded circuits, matrices, expectation values and forward-mode gradients; local circuits, confusable names, 5-6 (8) qubits with two or three stored amplitudes. Outside: sparse noise, reverse-mode and jitted sparse gradients, parameter shift on sparse circuits (jax or the package raises).",
    "C13": "All library gates with and without controls, noise, shifts; nested compositions and seeded circuits up to 3 gates, conversions in both directions and repeated; lookalikes (differing in noise, shift, angle, factor, qubits, kind) converted one after the other in an order the solver chooses; local and larger circuits; symbolic states and angles. Outside: deeper nestings.",
    "C14": "Symbolic states, Hermitian matrices, angles and factors; gradients, jacfwd, jacrev, Hessians of seeded circuits of up to 4 (6) gates with 1-3 observables on 1-3 (4) qubits, noise; rows of rotations on one qubit, confusable names, 4-6 (7) qubits with a few symbolic amplitudes. Circuits of 11-20 (33) parameters. Evolutions under constant Hamiltonians, with the derivative with respect to time (trusted: d/dt exp(-iHt) = -iH exp(-iHt)); states of real dtype and integer values. Outside: derivatives with respect to the entries of a Hamiltonian.",
    "C15": "As C14 in adjoint mode, state vectors; repeated, controlled, unused parameters, any order of the dictionary, local and larger circuits; refusal of density matrices. 11-20 (33) parameters; Hamiltonian evolutions among the gates, with the derivative with respect to time; states of real dtype and integer values. Outside: second derivatives, non-Hermitian observables.",
    "C16": "As C14 in gpsr mode without shots; RX RY RZ PHASE repeated and mixed, unused values, noise, density matrices, forward, reverse and directly called rules. Circuits of 11-20 (33) parameters. Rotations under control are decided too and listed as known findings (single-gap rule). Outside: Scale parameters and HamiltonianEvolution in gpsr mode (documented as unsupported).",
    "C17": "Symbolic normalised states and mixed states of 1-3 (4) qubits, the draw replaced by an oracle that returns every outcome with its symbolic probability; 1-4 shots over every outcome; 60-300 (520) shots along one seeded outcome path, on which every draw's distribution and key is decided; seeded circuits; refusal for every shot number in [-3, 0]. Hamiltonian evolutions among the gates. Trusted: the pseudo random generator of jax itself.",
    "C18": "As C17: the estimator's mean over every outcome of the draws, symbolic states and angles, 1-3 qubits, 1-3 shots, 1-3 observables with shared or different eigenbases; gradients; spread of the estimates for 1-3 shots; 20-50 (300) shots along one seeded outcome path, with gradients; confusable names; refusal of negative shots. 11 (20) parameters, Hamiltonian evolutions among the gates. Observables have numeric factors here. Trusted: numpy/LAPACK eigh on numeric matrices (its result is verified as an eigendecomposition).",
    "C19": "Symbolic values; seeded dictionaries, every order for the handwritten ones; every circuit of up to 3 slots over a menu of gates chosen by symbolic integers for the accounting; ansatz layouts from 2 to 6 qubits and up to 4 layers. Outside: hea for one qubit.",
    "C20": "Symbolic states, angles, factors; jit, vmap (1-3 lanes), pytree flattening, scan, for gates, circuits, observables, density matrices on 1-3 qubits, 4 (8) lanes, local circuits, confusable names, 5-7 (9) qubits with a few symbolic amplitudes. Hamiltonian evolutions among the gates; states of real dtype and integer values. Outside: jit of sparse gradients, shift attribute of HamiltonianEvolution.",
    "C21": "Symbolic Hamiltonians and times; diagonal and one-parameter Hamiltonians exactly, every other Hamiltonian with the matrix exponential as an uninterpreted function of its argument; 1-3 targets, 0-2 controls, registers of 1-4 qubits, state vectors and density matrices, given or named Hamiltonian and time. Several evolutions in one circuit, evaluated one after the other with different values, and the same evolution called again with other values. Outside: the accuracy of jax.scipy.linalg.expm.",
    "C22": "Symbolic amplitudes and matrix entries, symbolic bits; registers of 1-6 (9) qubits. Outside: fidelity between 0.98 and 1 in the test for equivalence (tolerance of that test).",
    "C23": "Symbolic states, values and keys; histories of up to three public calls chosen by symbolic integers from a menu, objects compared before and after each, the caller's objects also updated in place between the calls. Outside: longer histories.",
    "C24": "Symbolic placements of 1-2 targets and 0-3 controls in registers of 3-5 qubits and among indices 8-11 and 98-101; all rotations with 0-2 (3) controls, dense and sparse, every angle; gap rule for the uncontrolled rotations and PHASE with any controls on 1-3 qubits; equality of gates at two symbolic placements and of compositions, circuits and noise that hold symbolic integers or come from menus of lookalikes. Outside: the gap of controlled rotations (two frequencies, see the findings of C16), objects that hold arrays.",
}

ASSUMPTIONS = [
    "Real-number semantics: floating point rounding is not modelled; equalities are decided up to 1e-6 on inputs of modulus at most one.",
    "The functions of /repo are executed symbolically: the real Python code runs on symbolic tracers below jax.numpy, so the primitives of jax (the rules in engine/rules.py) are trusted to mean what their documentation says; every path is also run concretely on the untouched code and compared (traces_validated_against_impl).",
    "Program shapes (which gates, which placements) are finite families given in bounds; amplitudes, matrix entries, angles, probabilities, factors and draws are symbolic.",
    "Sine and cosine of an angle are related by the Pythagorean identity, the angle addition formulas and their values at the rational multiples of pi that occur.",
]
