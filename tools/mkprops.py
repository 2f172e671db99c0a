"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

A = "src/qrisp/"
p("C01", "Controlled gates apply the base gate exactly on the requested control state",
  "For every gate, every parameter value, every number of controls, every control state and every non phase-tolerant synthesis method, the controlled gate acts as the base gate (including its global phase) when the control qubits are in the control state and as the identity otherwise. This holds for the circuit the gate decomposes into and for the matrix it reports.",
  ["inputs", "configurations", "programs"],
  "all angles (symbolic), all basis states, every standard gate and composite gates, 1-4 controls, all control states, synthesis methods gray/auto",
  "Tests compare a few gates at fixed angles and mostly ctrl_state=all ones; the synthesis branches on gate name, number of controls and control state, so the product is never covered and angles are a continuum.",
  [A + "circuit/operation.py", A + "circuit/controlled_operations.py", A + "circuit/standard_operations.py", A + "alg_primitives/mcx_algs/", A + "simulator/unitary_management.py"],
  [("ControlledOperation / PTControlledOperation", A + "circuit/operation.py"), ("multi_controlled_u3_circ, multi_controlled_circuit, fredkin_qc", A + "circuit/controlled_operations.py")],
  ["Operation.control", "QuantumCircuit.get_unitary"])
p("C02", "Inverse of an operation undoes it exactly",
  "For every gate and every circuit without measurements, appending the inverse returns every state to itself, global phase included. Parameters, controls and control states of the inverse are those of the original.",
  ["inputs", "configurations", "programs"],
  "all angles, all basis states, every standard gate, its controlled versions, the phase tolerant controlled versions and composite circuits built from them",
  "Tests invert few gates at fixed angles; inverses are produced by name/parameter rules per gate class.",
  [A + "circuit/operation.py", A + "circuit/quantum_circuit.py", A + "circuit/instruction.py", A + "alg_primitives/mcx_algs/"],
  [("Operation.inverse and overrides", A + "circuit/operation.py"), ("QuantumCircuit.inverse", A + "circuit/quantum_circuit.py")],
  ["Operation.inverse", "QuantumCircuit.inverse"])
p("C03", "Every mcx method flips the target iff the controls match",
  "For every multi controlled X method, control count and control state, the target is flipped exactly when all controls are in the control state, every ancilla ends in |0>, and controls are unchanged. Methods documented as exact leave no phase; phase tolerant methods only leave a phase that their inverse counterpart removes.",
  ["inputs", "configurations"],
  "all basis states of controls and target; control counts 1 up to the bound; all control states; all measurement outcomes for measurement based methods",
  "Tests sample few control counts, usually with basis states through measurement, so wrong phases and dirty ancillas are invisible.",
  [A + "alg_primitives/mcx_algs/", A + "core/gate_application_functions.py", A + "core/compilation.py"],
  [("method dispatch", A + "core/gate_application_functions.py"), ("gray/gray_pt/jones/amy/gidney/yong/maslov/balauca/khattar circuits", A + "alg_primitives/mcx_algs/"), ("hybrid method at compile time", A + "core/compilation.py")],
  ["mcx", "QuantumSession.compile"])
p("C04", "In-place adders add modulo 2^n and leave everything else untouched",
  "Every in-place adder maps |a>|b> to |a>|a+b mod 2^n> for quantum or classical a, with carry-in, carry-out and control where offered. The other register, the control, all ancillas and all relative phases are unchanged.",
  ["inputs", "configurations"],
  "all values of both registers, all register size pairs up to the bound, all measurement outcomes, static and dynamic tracing mode",
  "Tests run a handful of values and read measurement outcomes; relative phases and ancilla entanglement are not observed, and measurement based uncomputation branches at random.",
  [A + "alg_primitives/arithmetic/adders/", A + "alg_primitives/arithmetic/qcla_adder.py", A + "alg_primitives/arithmetic/jasp_arithmetic/"],
  [("cuccaro/gidney/venting/qcla/fourier/remaud/ripple adders, increment", A + "alg_primitives/arithmetic/adders/")],
  ["fourier_adder", "cuccaro_adder", "gidney_adder", "qcla", "inpl_adder arguments of inpl_add"])
p("C05", "QuantumFloat arithmetic computes the exact real result or the documented wrap",
  "For all operand values, sizes, exponents and signedness, the QuantumFloat operators and their in-place forms (sum, difference, product, negation, squares, polynomial evaluation, division with remainder, shifts) yield the mathematically exact value whenever the result register can hold it. Operands are unchanged and ancillas are returned clean.",
  ["inputs", "configurations"],
  "all operand values; operand sizes, exponents and signs up to the bound; classical and quantum operands",
  "Tests pick fixed values and formats; correctness depends on the interplay of exponent, sign bit and size.",
  [A + "qtypes/quantum_float.py", A + "alg_primitives/arithmetic/SBP_arithmetic.py", A + "alg_primitives/arithmetic/ripple_mult.py", A + "alg_primitives/arithmetic/ripple_division.py", A + "alg_primitives/arithmetic/arithmetic_tools.py"],
  [("operator overloads", A + "qtypes/quantum_float.py"), ("semi-boolean polynomial evaluation", A + "alg_primitives/arithmetic/SBP_arithmetic.py")],
  ["QuantumFloat operators", "sbp_mult/sbp_add/sbp_sub", "q_div/q_divmod", "inpl_add/inpl_mult"])
p("C06", "Modular arithmetic is exact arithmetic modulo N",
  "For every modulus and all residues, addition, subtraction and multiplication on modular integers (with quantum and classical operands, in place and out of place, controlled or not) return the residue of the integer result. Ancillas are returned clean and other registers are unchanged.",
  ["inputs", "configurations"],
  "all residues in [0,N), all odd and even moduli up to the bound, all classical multipliers coprime to N for in-place multiplication",
  "Tests choose few moduli; Montgomery reduction and semi-classical tricks fail only on particular residues.",
  [A + "qtypes/quantum_modulus.py", A + "alg_primitives/arithmetic/modular_arithmetic/", A + "alg_primitives/arithmetic/jasp_arithmetic/"],
  [("modular adders / Montgomery multipliers", A + "alg_primitives/arithmetic/modular_arithmetic/")],
  ["QuantumModulus operators"])
p("C07", "Comparisons and boolean logic return the truth value for all operands",
  "For all operand values and formats, <, <=, >, >=, ==, != between quantum floats or with classical numbers, and the logical operators on quantum booleans, produce exactly the truth value of the relation. Operands are unchanged and ancillas clean.",
  ["inputs", "configurations"],
  "all operand values; sizes, exponents and signs up to the bound; classical thresholds on and outside the representable range",
  "Sign, exponent and out-of-range threshold cases multiply; tests sample a few.",
  [A + "alg_primitives/arithmetic/comparisons.py", A + "alg_primitives/arithmetic/uint_clifford_t_comparisons.py", A + "qtypes/quantum_bool.py", A + "qtypes/quantum_float.py", A + "core/quantum_variable.py"],
  [("comparison functions", A + "alg_primitives/arithmetic/comparisons.py")],
  ["QuantumFloat/QuantumBool operators"])
p("C08", "Labels and bit patterns of quantum types correspond one to one",
  "For every quantum type and format, decoding a bit pattern gives the documented label, encoding a label gives back that pattern, and labels that are not representable are rejected. Rounding and truncation choose a representable neighbour as documented.",
  ["inputs", "configurations"],
  "all bit patterns and all labels for all sizes, exponents, signs and moduli (symbolic)",
  "Finite tests cannot cover all formats; the conversion code is shared by initialisation, measurement and arithmetic with constants.",
  [A + "qtypes/", A + "core/quantum_variable.py", A + "misc/utility.py"],
  [("decoder/encoder overrides", A + "qtypes/"), ("int_encoder, bin_rep, int_as_array", A + "misc/utility.py")],
  ["QuantumVariable.decoder/encoder", "QuantumVariable.encode"])
p("C09", "Quantum environments give their body the documented meaning",
  "A body inside a control environment acts exactly when the controls match, inside an inversion environment acts as its inverse, inside a conjugation environment as V, body, V-inverse, inside a condition environment exactly when the condition holds; with arbitrary nesting. No other effect, phase or garbage remains.",
  ["programs", "inputs"],
  "all basis states and angles for a grammar of nested environments around gate sequences and function calls",
  "Programs are unbounded; the compilers have special cases per instruction type (allocation, custom control, permeability) that only nesting reaches.",
  [A + "environments/"],
  [("environment compile methods", A + "environments/"), ("custom_control / custom_inversion", A + "environments/custom_control_environment.py")],
  ["control", "invert", "conjugate", "condition", "gate_wrap"])
p("C10", "Uncomputation returns qubits to |0> and changes nothing else, or refuses",
  "Whenever automatic uncomputation of a variable succeeds, its qubits are in |0> for every input and all other variables hold the values and relative phases they would have had without it. Otherwise an error is raised instead of producing a wrong circuit.",
  ["programs", "inputs"],
  "all basis states for a grammar of programs that compute variables from others and uncompute them in legal and illegal orders",
  "Correctness depends on the dependency graph of the whole program; tests hold a few hand written graphs.",
  [A + "permeability/", A + "core/quantum_variable.py"],
  [("unqomp algorithm", A + "permeability/qc_transformations/unqomp.py"), ("uncomputation entry", A + "permeability/uncomputation.py"), ("lifted / auto_uncompute", A + "permeability/uncomputation.py")],
  ["QuantumVariable.uncompute", "auto_uncompute", "lifted"])
p("C11", "Compiling a session preserves what the program computes",
  "For every program, the circuit produced by compiling a session (any workspace, depth/qubit trade-off, measurement-based uncomputation and cancellation option) maps every input of the live variables to the same output state as the recorded program, and leaves all other qubits in |0>.",
  ["programs", "inputs", "configurations"],
  "all basis states for a family of programs with allocation, deallocation and ancilla-using gates, over all compile options; all measurement outcomes",
  "Reordering and qubit reuse are global decisions; wrong reuse shows only for specific programs and superposition inputs.",
  [A + "core/compilation.py", A + "core/quantum_session.py", A + "permeability/qc_transformations/", A + "circuit/transpiler.py"],
  [("qompiler", A + "core/compilation.py"), ("memory management / parallelization / lightcone reduction", A + "permeability/qc_transformations/")],
  ["QuantumSession.compile"])
p("C12", "Circuit passes and transpilation preserve the circuit's unitary",
  "Every built-in circuit pass, pass manager pipeline and transpilation level returns a circuit with the same action as its input, up to the qubit relabelling or global phase that the pass documents.",
  ["programs", "inputs"],
  "all angles (symbolic where the pass accepts them) and all basis states over families of circuits that exercise every rewrite rule",
  "Rewrites depend on gate adjacency, on parameter values and on names; tests check few random circuits numerically.",
  [A + "circuit/pass_management/", A + "circuit/transpiler.py", A + "circuit/quantum_circuit.py"],
  [("passes", A + "circuit/pass_management/passes/"), ("transpile/extend", A + "circuit/transpiler.py")],
  ["PassManager.run", "QuantumCircuit.transpile", "pass functions"])
p("C13", "Reported qfree / permeability properties are true of the circuit",
  "If an operation is classified as qfree its matrix is a permutation with phases, and if it is classified permeable on a qubit it commutes with Z on that qubit. The classification is the licence for reordering and uncomputation, so it must never be claimed wrongly.",
  ["programs", "inputs"],
  "all angles and basis states for every standard gate, controlled gates and circuits over them",
  "The checker uses rounding and shortcuts on names; false positives only show for unusual gate combinations.",
  [A + "permeability/type_checker.py", A + "permeability/permeability_dag.py", A + "circuit/operation.py", A + "environments/gate_wrap_environment.py"],
  [("is_qfree / is_permeable / permeability dictionaries", A + "permeability/type_checker.py")],
  ["is_qfree", "is_permeable", "lifted"])
p("C14", "The built-in simulator returns the true state",
  "For every circuit the simulator's amplitudes, probabilities and classical outcomes are those of the matrix product of its gates, independent of its internal sparse/dense representation, factorisation, reordering and preprocessing.",
  ["programs", "inputs"],
  "all amplitudes (symbolic array entries) and all index patterns up to the bound for the array kernels; all circuits of a family for the preprocessing rewrites",
  "Kernel behaviour depends on representation thresholds and index layouts that tests meet by chance.",
  [A + "simulator/"],
  [("bi_arrays kernels", A + "simulator/bi_arrays.py"), ("circuit_preprocessing / reordering", A + "simulator/circuit_preprocessing.py"), ("tensor factors", A + "simulator/tensor_factor.py")],
  ["QuantumCircuit.run", "statevector"])
p("C15", "Qubit operator algebra agrees with matrix algebra",
  "Sums, products, scalar multiples, commutators, adjoints, powers, substitution, Pauli conversion and hermitization of qubit operators equal the corresponding operations on the matrices they represent, for all coefficients.",
  ["inputs", "programs"],
  "all complex coefficients (symbolic), all factor combinations (X,Y,Z,A,C,P0,P1,I) on up to the bounded number of qubits",
  "Eight factor types per qubit give hundreds of multiplication rules and phase factors; tests spot-check sums.",
  [A + "operators/qubit/"],
  [("QubitTerm multiplication", A + "operators/qubit/qubit_term.py"), ("QubitOperator", A + "operators/qubit/qubit_operator.py")],
  ["QubitOperator operators", "to_sparse_matrix"])
p("C16", "Fermionic operators obey the canonical anticommutation relations",
  "Algebra on fermionic operators and every mapping to qubit operators respects anticommutation: the qubit image of a sum, product, adjoint or reordering equals the same expression of the images, for all coefficients and orderings.",
  ["inputs", "programs"],
  "all ladder words up to the bounded length and modes, all coefficients symbolic",
  "Signs depend on the order and index pattern of whole words.",
  [A + "operators/fermionic/"],
  [("FermionicTerm / FermionicOperator", A + "operators/fermionic/"), ("Jordan-Wigner", A + "operators/fermionic/transformations/")],
  ["FermionicOperator operators", "to_qubit_operator"])
p("C17", "Hamiltonian simulation circuits implement the exponential of their terms",
  "For every term (or commuting group) of an operator and every time, the generated simulation circuit implements exp(-i t H) exactly, forward evolution is the inverse of backward evolution, and measurement basis changes diagonalise the group they were built for.",
  ["inputs", "programs"],
  "all times (symbolic) and every factor combination up to the bounded number of qubits",
  "Angles are a continuum and sign conventions differ per factor combination; tests compare low-precision numeric expectation values.",
  [A + "operators/qubit/", A + "operators/hamiltonian.py", A + "operators/fermionic/trotterization.py"],
  [("simulate / trotterization / change_of_basis", A + "operators/qubit/qubit_operator.py")],
  ["QubitOperator.trotterization", "get_measurement settings"])
p("C18", "Dynamically traced programs mean the same as statically executed ones",
  "A program traced with the dynamic (jasp) mode, with loops, control, inversion, conjugation and classical control flow on run-time values, performs the same transformation as the statically built circuit for every run-time parameter value.",
  ["programs", "inputs"],
  "all basis states and all run-time integer parameters within the bound for a family of traced programs and program transformations",
  "Inverse/control transformations rewrite the traced expression; tests run few parameter values.",
  [A + "jasp/"],
  [("inv_transform / control_transform", A + "jasp/jasp_expression/"), ("interpreters", A + "jasp/interpreter_tools/interpreters/")],
  ["make_jaspr", "Jaspr.inverse", "Jaspr.control", "Jaspr.to_qc", "jaspify"])
p("C19", "Resource estimates equal the resources of the executed circuit",
  "Gate counts, depth and qubit numbers reported for a dynamically traced program equal those of the circuit the program executes, for every run-time parameter value.",
  ["inputs", "programs"],
  "all run-time integer parameters within the bound (symbolic) for a family of traced programs with loops, conditionals, allocation and nested calls",
  "Estimators evaluate a derived classical program, whose loop and branch handling fails only for special parameter values (zero trips, last iterations).",
  [A + "jasp/interpreter_tools/interpreters/", A + "jasp/evaluation_tools/profiler.py"],
  [("count_ops / depth / num_qubits metrics", A + "jasp/interpreter_tools/interpreters/")],
  ["count_ops", "depth", "num_qubits"])
p("C20", "BigInteger is exact fixed-width integer arithmetic",
  "All operations of the scalable integer type (construction, addition, subtraction, multiplication, division, remainder, shifts, comparisons, bit access, bit operations) equal integer arithmetic modulo 2^(32 n) for every operand.",
  ["inputs", "configurations"],
  "all operand values for 1 up to the bounded number of limbs; all shift and bit indices",
  "Carry, borrow and quotient-estimate corner cases occur with probability 2^-32 per limb.",
  [A + "alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py", A + "alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py"],
  [("limb algorithms", A + "alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py")],
  ["BigInteger"])
p("C21", "Synthesised circuits compute the given classical function",
  "For every truth table, quantum dictionary, function-loading or phase-function request, the synthesised circuit writes f(x) into the target (or multiplies the documented phase) for every input x and every synthesis algorithm, without disturbing x or leaving garbage.",
  ["inputs", "configurations", "programs"],
  "all inputs x; all functions of the bounded number of variables (table entries symbolic where the code allows, else exhaustively generated families)",
  "The number of functions is doubly exponential; tests use a few tables.",
  [A + "alg_primitives/logic_synthesis/", A + "core/quantum_dictionary.py", A + "misc/utility.py"],
  [("gray / pprm synthesis", A + "alg_primitives/logic_synthesis/"), ("QuantumDictionary.load", A + "core/quantum_dictionary.py")],
  ["TruthTable.q_synth", "QuantumDictionary[...]", "as_hamiltonian", "app_phase_function"])
p("C22", "Converted circuits have the same meaning in the other framework",
  "Converting a circuit to or from another framework or to OpenQASM preserves every gate's action with its parameters, control states, qubit and classical bit order, up to documented global phase.",
  ["programs", "inputs"],
  "all angles (symbolic) and qubit permutations for every convertible gate and control combination",
  "One mapping rule per gate per framework; conventions differ by signs, factors of two and bit order.",
  [A + "interface/converter/", A + "circuit/quantum_circuit.py"],
  [("converters", A + "interface/converter/")],
  ["QuantumCircuit.to_qiskit/from_qiskit/to_pytket/to_pennylane/to_cirq/qasm"])
p("C23", "Backends deliver the right counts to the right request",
  "For every sequence of submissions, dispatches, clears and backend failures, each result object receives exactly the counts of its own circuit with its own shot number, decoded probabilities are the normalised merged counts, and failed or undispatched requests raise instead of returning data.",
  ["histories", "fault_sequences", "inputs"],
  "all operation sequences up to the bound, all shot numbers, count values and failure points",
  "Histories and failure positions combine; tests cover a few fixed scenarios.",
  [A + "interface/", A + "core/quantum_variable.py"],
  [("BatchedBackend / MeasurementResult / Job", A + "interface/")],
  ["Backend.run/run_async", "BatchedBackend.dispatch", "get_measurement", "multi_measurement"])
p("C24", "Quantum arrays address the same elements as the equivalent numpy array",
  "Indexing, slicing, reshaping, transposing, element assignment, iteration and quantum-index access of a quantum array select the element the same operation selects on a numpy array, and labels are encoded and decoded elementwise.",
  ["inputs", "configurations"],
  "all element values and quantum index values; array shapes and index expressions up to the bound",
  "Shape manipulation composes; quantum index access has to be right for all superposed indices.",
  [A + "core/quantum_array.py", A + "alg_primitives/iterable_processing.py", A + "alg_primitives/arithmetic/matrix_multiplication.py"],
  [("QuantumArray", A + "core/quantum_array.py")],
  ["QuantumArray"])
p("C25", "QFT and phase arithmetic act as the Fourier transform",
  "The quantum Fourier transform with every option equals the discrete Fourier transform matrix, its inverse undoes it, and phase estimation of any eigenphase that is exactly representable returns it with certainty.",
  ["inputs", "configurations"],
  "all basis states, all register sizes up to the bound, all options; all representable eigenphases (symbolic bits)",
  "Tests read probabilities, which hide wrong phases and swapped bit order.",
  [A + "alg_primitives/qft.py", A + "alg_primitives/qpe.py", A + "alg_primitives/iterative_qpe.py"],
  [("QFT circuit construction", A + "alg_primitives/qft.py")],
  ["QFT", "QPE", "IQPE"])
p("C26", "Quantum-indexed control structures select the right branch or element",
  "Quantum switch, demultiplexing, cyclic shift, permutation and iteration primitives act on the element or branch selected by the quantum index for every index value, and act as identity outside the documented range.",
  ["inputs", "configurations"],
  "all index and data values; all sizes, case counts and methods up to the bound",
  "Tree-shaped selection has boundary cases at non powers of two that tests seldom hit in superposition.",
  [A + "alg_primitives/program_control/", A + "alg_primitives/iterable_processing.py", A + "alg_primitives/reflection.py"],
  [("q_switch / qswitch", A + "alg_primitives/program_control/"), ("demux / cyclic_shift / permute_iterable", A + "alg_primitives/iterable_processing.py")],
  ["q_switch", "demux", "cyclic_shift", "to_cycles/permute_iterable", "reflection"])
p("C27", "State preparation produces the requested amplitudes",
  "Preparing a state from given amplitudes, logical superpositions, Dicke or weighted W states yields exactly these amplitudes up to global phase, for all valid amplitude vectors.",
  ["inputs", "configurations"],
  "all amplitude vectors of the bounded length",
  "Amplitudes are a continuum; zero amplitudes and negative/complex phases hit special branches.",
  [A + "alg_primitives/state_preparation/", A + "alg_primitives/dicke_state_prep.py", A + "alg_primitives/unbalanced_w_state.py"],
  [("state preparation", A + "alg_primitives/state_preparation/")],
  ["prepare", "init_state", "dicke_state"])
p("C28", "Block encodings encode the stated operator",
  "Every block encoding (and each algebraic combination of block encodings) has the stated operator, scaled by its stated normalisation, as its ancilla-zero block.",
  ["inputs", "programs"],
  "all coefficients and basis states for a family of encodings and combinations",
  "Tests compare a few matrices numerically at low precision.",
  [A + "block_encodings/", A + "alg_primitives/lcu.py"],
  [("BlockEncoding / LCU", A + "block_encodings/")],
  ["BlockEncoding", "LCU"])
p("C29", "Grover, amplitude amplification and QAOA blocks act as stated",
  "tag_state, the diffuser and amplitude amplification perform the stated reflections and rotations for every angle and every marked element; exact Grover search leaves only marked elements; each QAOA cost operator is the exponential of its objective, each mixer that of its generator, and the classical cost function is the expectation of the same objective.",
  ["inputs", "programs"],
  "all angles, all marked elements, all outcome distributions, for a family of problem instances",
  "Tests run the optimisation and check that some good solution appears; wrong terms, weights or angles only shift probabilities.",
  [A + "algorithms/grover/", A + "algorithms/qaoa/", A + "alg_primitives/amplitude_amplification.py", A + "alg_primitives/reflection.py"],
  [("cost operators, mixers and objectives", A + "algorithms/qaoa/problems/"), ("Grover iteration", A + "algorithms/grover/grover_tools.py")],
  ["grovers_alg", "amplitude_amplification", "QAOAProblem.compile_circuit"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
