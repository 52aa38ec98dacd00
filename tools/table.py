prop("C01", "Standard gates denote the operator their name stands for",
     "Every gate constructor of the circuit library builds an operation whose matrix, obtained from its own numerical data and from its decomposition alike, is the textbook matrix of the gate it is named after, for every value of its parameters. The published name and parameter list describe that same matrix, and the published structural flags (which qubits a gate leaves untouched in the computational basis, whether it maps basis states to basis states) are true of it.",
     ["inputs"], "all constructors, all real parameter values including symbolic ones, all control counts and control states of the constructors that take them",
     "The tests compare a few gates at a few angles by simulation; special-cased angles, sign conventions and flags that only matter to later passes are not compared with anything.",
     ["src/qrisp/circuit/standard_operations.py", "src/qrisp/circuit/operation.py"],
     [("gate constructors", "src/qrisp/circuit/standard_operations.py"), ("single qubit gate data", "src/qrisp/circuit/operation.py")])

prop("C02", "The inverse of an operation or circuit is its adjoint",
     "Inverting any operation or circuit yields an object whose matrix is the adjoint of the original, with the same qubits and the published name, parameters and flags describing the inverse. Inverting twice gives back the original meaning, the original object is left unchanged, and anything that has no inverse (measurement, reset) is refused with an error.",
     ["inputs", "programs"], "all library gates and all parameter values, controlled gates with every control state, and circuits composed of them, nested into custom gates",
     "Tests invert selected circuits and check that the product is the identity on selected states; a wrong sign that cancels or a flag that goes stale is not observed.",
     ["src/qrisp/circuit/operation.py", "src/qrisp/circuit/quantum_circuit.py", "src/qrisp/circuit/instruction.py", "src/qrisp/circuit/standard_operations.py"],
     [("operation inverse", "src/qrisp/circuit/operation.py"), ("circuit inverse", "src/qrisp/circuit/quantum_circuit.py")])

prop("C03", "A controlled gate acts exactly on the requested control state",
     "Controlling an operation yields an operation on controls followed by the original qubits, that applies the original operation when the controls hold the requested control state (given as a string or as an integer) and is the identity otherwise, for every number of controls and every synthesis method; phase tolerant methods may additionally apply phases to basis states. Controlling an already controlled operation behaves as one operation with all controls. The matrix query, name and structural flags agree with this, and a control state of the wrong length is refused.",
     ["inputs", "configurations"], "all library gates and custom gates, all parameter values, 1 to 3 controls, all control states, all synthesis methods",
     "There are exponentially many combinations of gate, control state, method and nesting; tests sample the all-ones state and a few methods.",
     ["src/qrisp/circuit/operation.py", "src/qrisp/circuit/controlled_operations.py", "src/qrisp/alg_primitives/mcx_algs/__init__.py", "src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py", "src/qrisp/simulator/unitary_management.py"],
     [("controlled operation", "src/qrisp/circuit/operation.py"), ("synthesis of controlled gates", "src/qrisp/circuit/controlled_operations.py"), ("matrix query", "src/qrisp/simulator/unitary_management.py")])

prop("C04", "Gate functions and circuit methods apply the gate they name",
     "Calling a gate function (x, cx, rz, cp, mcx, swap, ...) on qubits or quantum variables, or the method of the same name on a circuit, appends exactly that gate with exactly those parameters on exactly those qubits in that order, whether the program runs directly or is being traced: the traced path binds the same gate and the same parameters as the direct path. Lists of qubits are broadcast element by element, multi-controlled forms use the requested control state, and measure ties each qubit to its own classical bit.",
     ["inputs", "programs"], "all gate functions and all circuit methods, all parameter values, single qubits, lists and variables, direct and traced execution",
     "Around a hundred thin wrappers each repeat argument order, parameter order and gate name for two execution modes; tests call most of them once and in one mode.",
     ["src/qrisp/core/gate_application_functions.py", "src/qrisp/circuit/quantum_circuit.py", "src/qrisp/circuit/standard_operations.py"],
     [("gate functions", "src/qrisp/core/gate_application_functions.py"), ("circuit methods", "src/qrisp/circuit/quantum_circuit.py")])

prop("C05", "Conversion to and from other frameworks keeps the meaning of a circuit",
     "Converting a circuit to Qiskit, pytket, PennyLane, Cirq or Stim yields a circuit of that framework with the same matrix up to a global phase, gate angles expressed in the unit and convention of the target, the same qubit order, the same measured bits and the same classical conditions including their value; converting from Qiskit or Cirq does the same in the other direction. What the target cannot express is refused with an error instead of being dropped or replaced, and the source circuit is left as it was.",
     ["inputs", "configurations"], "all library gates and their controlled forms with every control state, custom gates, all parameter values, measurements, resets and classical conditions, for each framework",
     "Tests convert a handful of circuits and mostly compare sampled counts; the conventions of each target gate (angle units, phases that matter under control, bit order) are not compared gate by gate.",
     ["src/qrisp/interface/converter/qiskit_converter.py", "src/qrisp/interface/converter/pytket_converter.py", "src/qrisp/interface/converter/pennylane_converter.py", "src/qrisp/interface/converter/cirq_converter.py", "src/qrisp/interface/converter/stim_converter.py"],
     [("Qiskit converter", "src/qrisp/interface/converter/qiskit_converter.py"), ("pytket converter", "src/qrisp/interface/converter/pytket_converter.py"), ("PennyLane converter", "src/qrisp/interface/converter/pennylane_converter.py"), ("Cirq converter", "src/qrisp/interface/converter/cirq_converter.py"), ("Stim converter", "src/qrisp/interface/converter/stim_converter.py")])

prop("C06", "Multi-controlled gates flip or phase exactly the requested state",
     "The functions mcx, mcz and mcp act on exactly the requested control state, given as a string or an integer, for every number of controls and every synthesis method they offer, including the methods that borrow dirty ancillae, use conditionally clean ancillae, or measure ancillae and correct afterwards: for every measurement outcome the net effect on the remaining qubits is the ideal gate up to a global phase. Every ancilla allocated on the way is back in the zero state when it is given back. Compiled replacements of logical AND and Toffoli gates implement what they replace, and a control state of the wrong length or an unknown method is refused.",
     ["inputs", "configurations", "schedules"], "all methods of mcx, mcz and mcp, 1 to 6 controls, control states given as strings and integers, all outcomes of intermediate measurements",
     "The product of methods, control counts, control states and measurement outcomes is large; tests look at computational basis outcomes, where wrong phases do not show.",
     ["src/qrisp/core/gate_application_functions.py", "src/qrisp/alg_primitives/mcx_algs/balauca.py", "src/qrisp/alg_primitives/mcx_algs/khattar.py", "src/qrisp/alg_primitives/mcx_algs/circuit_library.py", "src/qrisp/alg_primitives/mcx_algs/gidney.py"],
     [("multi-controlled functions", "src/qrisp/core/gate_application_functions.py"), ("synthesis methods", "src/qrisp/alg_primitives/mcx_algs/balauca.py"), ("logical AND", "src/qrisp/alg_primitives/mcx_algs/gidney.py")])

prop("C07", "Circuit passes keep the meaning of the circuit",
     "Every circuit pass of the library (fusing and combining gates, converting to another gate set, decomposing, resynthesizing, moving or cancelling swaps and controls, removing barriers, reordering) returns a circuit with the same effect as the one it was given: the same matrix up to a global phase, the same joint distribution of measured bits and the same classically conditioned gates, where passes that rely on qubits starting in the zero state need to agree on that state only. The circuit that was passed in is left as it was. A conversion to a gate set returns only gates of that set, and a layout refuses placements that are not one-to-one.",
     ["inputs", "programs"], "all passes of the pass library on all circuits of up to three qubits built from the library gates, their controlled forms with every control state, custom gates, measurements, resets, allocations and classical conditions",
     "The passes are rewriting rules over pairs of gates; tests run each of them on a few circuits, and a rule that is wrong for one pair, one control state or one condition stays unseen.",
     ["src/qrisp/circuit/pass_management/passes/fuse_adjacents.py", "src/qrisp/circuit/pass_management/passes/decompose.py", "src/qrisp/circuit/pass_management/passes/convert_to_cz.py", "src/qrisp/circuit/pass_management/passes/commute_swaps.py", "src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py", "src/qrisp/permeability/permeability_dag.py"],
     [("gate fusion", "src/qrisp/circuit/pass_management/passes/fuse_adjacents.py"), ("gate set conversion", "src/qrisp/circuit/pass_management/passes/convert_to_cz.py"), ("swap handling", "src/qrisp/circuit/pass_management/passes/commute_swaps.py")])

FLOW = "control-flow graph, path-sensitive typestate and dataflow analysis of the source"

prop("C08", "Temporary quantum variables are given back on every path",
     "A quantum variable that a library function allocates for its own use, and neither returns nor stores anywhere a caller can reach, is deleted or uncomputed on every path on which the function ends normally, including early returns and every combination of its branches. After it was deleted it is neither used again nor deleted a second time.",
     ["programs", "inputs"], "all library functions that allocate quantum variables for themselves, all paths through them",
     "A forgotten ancilla does not change measured results, so functional tests stay green; it shows as growing circuits, refused later uses or states that stay entangled with forgotten qubits, and only on the branch in question.",
     ["src/qrisp/alg_primitives/arithmetic/adders/adder_tools.py", "src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py", "src/qrisp/alg_primitives/mcx_algs/balauca.py", "src/qrisp/operators/qubit/qubit_term.py", "src/qrisp/alg_primitives/qae.py"],
     [("term simulation", "src/qrisp/operators/qubit/qubit_term.py"), ("in-place adders", "src/qrisp/alg_primitives/arithmetic/adders/adder_tools.py"), ("multi-controlled gates", "src/qrisp/alg_primitives/mcx_algs/balauca.py")],
     technique="ownership typestate over control-flow graphs, path-sensitive", note=FLOW_NOTE)

prop("C09", "Arguments stay as given and copies are independent of their original",
     "A documented function leaves the lists, dictionaries, graphs, circuits and operators passed to it unchanged unless working on them is its purpose, a mutable default value is the same for every call, and a method that answers a question or builds a new object leaves the object it is called on unchanged. What copying, inverting, transforming or adding circuits, instructions and operators returns shares no mutable part with the original, so that changing one never changes the other. In-place operators evaluate to their operand on every path.",
     ["programs", "inputs"], "all documented functions and the methods of circuits, operations, operators and quantum arrays, all paths through them and the functions they call",
     "A test passes an argument once and looks at the result; that the argument has changed or that the copy is connected to the original shows only when the caller uses it again.",
     ["src/qrisp/circuit/quantum_circuit.py", "src/qrisp/circuit/operation.py", "src/qrisp/operators/qubit/qubit_operator.py", "src/qrisp/operators/fermionic/fermionic_operator.py", "src/qrisp/core/quantum_array.py", "src/qrisp/algorithms/qaoa/qaoa_problem.py"],
     [("circuit copies", "src/qrisp/circuit/quantum_circuit.py"), ("operator arithmetic", "src/qrisp/operators/qubit/qubit_operator.py"), ("measurement options", "src/qrisp/algorithms/qaoa/qaoa_problem.py")],
     technique="interprocedural side-effect and alias analysis (summaries to a fixpoint)", note=FLOW_NOTE)

prop("C10", "No path runs into a missing name, member, signature or result",
     "Whatever options and branches a program takes, the library finds the names and modules it refers to, reads local variables only after they were assigned, and finds the members it reads from its own objects. Calls between library functions fit the parameter lists of what they call. A function that ends in a choice and returns a result in its branches returns one in all of them.",
     ["programs", "configurations"], "all functions, methods and modules of the library and all paths through them",
     "Errors of this kind sit in branches for rare options; Python reports them only when the branch is taken, and the tests do not take all of them.",
     ["src/qrisp/core/compilation.py", "src/qrisp/operators/qubit/measurement.py", "src/qrisp/alg_primitives/logic_synthesis/truth_tables.py", "src/qrisp/algorithms/gqsp/gqsp.py"],
     [("compilation options", "src/qrisp/core/compilation.py"), ("logic synthesis methods", "src/qrisp/alg_primitives/logic_synthesis/truth_tables.py")],
     technique="name resolution, definite-assignment dataflow and signature queries over the syntax tree", note=FLOW_NOTE)

prop("C11", "Options take effect: none is ignored, lost on the way or mixed up",
     "A value given for an option of a documented function or constructor reaches the statements that depend on it, also when the function delegates the work to another routine that knows the same option. Two options are never exchanged on the way. Leaving an option out means the documented default.",
     ["programs", "configurations"], "all options of documented functions, methods and constructors, and all calls between functions that share options",
     "Tests call most functions with the defaults; an option that is silently dropped gives a valid result that merely is not the requested one.",
     ["src/qrisp/core/quantum_variable.py", "src/qrisp/algorithms/qaoa/qaoa_problem.py", "src/qrisp/algorithms/vqe/vqe_problem.py", "src/qrisp/operators/qubit/qubit_operator.py", "src/qrisp/alg_primitives/mcx_algs/multi_cx.py"],
     [("measurement options", "src/qrisp/core/quantum_variable.py"), ("training options", "src/qrisp/algorithms/vqe/vqe_problem.py")],
     technique="def-use dataflow of parameters and argument binding queries over the call graph", note=FLOW_NOTE)

prop("C12", "Requests that cannot be carried out are refused instead of answered wrongly",
     "Invalid inputs (sizes, values, types or combinations that the library documents or checks) keep being refused with an exception. A choice among named alternatives refuses every other name. A refusal is raised, not returned or swallowed.",
     ["inputs", "configurations"], "all refusals of documented functions and all choices among named alternatives",
     "Most refusals are never triggered by tests; a check that no longer triggers turns an error into a wrong result.",
     ["src/qrisp/circuit/quantum_circuit.py", "src/qrisp/core/quantum_session.py", "src/qrisp/core/quantum_variable.py", "src/qrisp/operators/qubit/qubit_operator.py", "src/qrisp/alg_primitives/mcx_algs/multi_cx.py"],
     [("circuit validation", "src/qrisp/circuit/quantum_circuit.py"), ("choice of method", "src/qrisp/alg_primitives/mcx_algs/multi_cx.py")],
     technique="guard analysis on the control-flow graph against an inventory of refusals", note=FLOW_NOTE)

prop("C13", "Qubit operator expressions denote the matrices they are written as",
     "Sums, differences, products, scalar multiples, adjoints, hermitian parts and commutators of operators built from Pauli, ladder and projector factors denote the corresponding matrices, for real, complex and symbolic coefficients. Rewriting an operator (Pauli form, matrix and array conversion, simplification, substitution, grouping into commuting parts) does not change the matrix. Commutation tests answer as the matrices do.",
     ["inputs", "programs"], "all products of up to two factors on up to three qubits, sums of them and all operator methods",
     "The algebra has a table of 64 products with phases; tests sample few of them, and a wrong phase in a rare pair changes energies slightly.",
     ["src/qrisp/operators/qubit/qubit_operator.py", "src/qrisp/operators/qubit/qubit_term.py", "src/qrisp/operators/qubit/operator_factors.py"],
     [("product table", "src/qrisp/operators/qubit/qubit_term.py"), ("grouping", "src/qrisp/operators/qubit/qubit_operator.py")])

prop("C14", "Fermionic operators keep the anticommutation relations in every form",
     "Expressions of creation and annihilation operators denote the corresponding operators on Fock space: sums, products, scalar multiples, adjoints, hermitian parts, sorting into standard form and comparison respect the canonical anticommutation relations. The mapping to qubits is an algebra homomorphism with the documented order of modes and qubits. Restructuring terms (grouping, sorting by index) keeps the operator.",
     ["inputs", "programs"], "all products of up to four ladder operators on up to three modes, sums of them and all methods",
     "A lost sign in a reordering shows only for particular orders of particular modes; tests compare a few Hamiltonians.",
     ["src/qrisp/operators/fermionic/fermionic_operator.py", "src/qrisp/operators/fermionic/fermionic_term.py", "src/qrisp/operators/fermionic/transformations.py"],
     [("sorting with sign", "src/qrisp/operators/fermionic/fermionic_term.py"), ("mapping to qubits", "src/qrisp/operators/fermionic/transformations.py")])

prop("C15", "Blocks under control, inversion, conjugation and condition act as promised",
     "A block under a control acts exactly for the requested control values, also inverted; a block under inversion acts as its adjoint, under conjugation between a step and its undoing, under a condition where the condition holds, under repetition that many times, and under a gate wrap as itself. Functions with a custom controlled version act like their controlled selves. All of this also holds when the blocks are nested in each other, and temporary qubits return to zero.",
     ["programs"], "all nests of two and a sample of nests of three environments around blocks with plain gates, custom control functions and wrapped gates, for symbolic angles",
     "The compilation of an environment depends on the kind and control value of the surrounding ones; the number of nests is far beyond the combinations in the tests.",
     ["src/qrisp/environments/control_environment.py", "src/qrisp/environments/quantum_conditionals.py", "src/qrisp/environments/quantum_inversion.py", "src/qrisp/environments/conjugation_environment.py", "src/qrisp/environments/custom_control_environment.py", "src/qrisp/environments/iteration_environment.py", "src/qrisp/environments/quantum_environments.py"],
     [("control compilation", "src/qrisp/environments/control_environment.py"), ("custom control", "src/qrisp/environments/custom_control_environment.py"), ("conditions", "src/qrisp/environments/quantum_conditionals.py")])

prop("C16", "Evolution and measurement of an operator mean the operator that was written",
     "Evolving under an operator for a time agrees with the exponential of its hermitian part: exactly for commuting terms, up to the order of the splitting otherwise, for every method, order, direction and number of steps, also under control and inversion, and likewise for fermionic operators. The basis changes and the values given to measurement outcomes add up to the hermitian part of the measured operator, whichever grouping is chosen. The list of unitaries and coefficients of an operator combines to its hermitian part.",
     ["inputs", "programs"], "all strings of up to two and samples of strings of up to four Pauli, ladder and projector factors, pairs and larger sets of commuting strings, mixed operators and fermionic operators on up to four modes",
     "The signs of a basis change depend on the whole set of terms; a wrong sign in one set gives a plausible energy, and tests compare a few Hamiltonians.",
     ["src/qrisp/operators/qubit/qubit_operator.py", "src/qrisp/operators/qubit/qubit_term.py", "src/qrisp/operators/qubit/commutativity_tools.py", "src/qrisp/operators/qubit/measurement.py", "src/qrisp/operators/qubit/jasp_measurement.py", "src/qrisp/operators/fermionic/trotterization.py"],
     [("change of basis", "src/qrisp/operators/qubit/qubit_operator.py"), ("term evolution", "src/qrisp/operators/qubit/qubit_term.py"), ("outcome values", "src/qrisp/operators/qubit/measurement.py"), ("fermionic swaps", "src/qrisp/operators/fermionic/trotterization.py")])

prop("C17", "Arithmetic and comparison operators of quantum numbers give exact results",
     "Adding, subtracting, multiplying, exponentiating, dividing, shifting and comparing quantum numbers gives, for every pair of values in a superposition, the result of exact arithmetic: sums, differences and products into a new number are exact, in-place operations are exact modulo the range of the number, and a comparison is true exactly where it holds. This holds for every combination of mantissa size, exponent and signedness, for classical operands, and for in-place operations under control and inversion. Operands are left as they were, no value-dependent phase appears, and temporary qubits return to zero.",
     ["inputs", "programs"], "all operators on pairs of quantum numbers of up to three bits with exponents between -4 and 1, signed and unsigned, and on classical operands; all basis states up to 40, a spread sample above",
     "The result depends on the overlap of two ranges with different exponents and signs; tests use a few shapes, mostly unsigned integers of equal size.",
     ["src/qrisp/qtypes/quantum_float.py", "src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py", "src/qrisp/alg_primitives/arithmetic/comparisons.py", "src/qrisp/alg_primitives/arithmetic/ripple_division.py", "src/qrisp/alg_primitives/arithmetic/adders/ripple_carry_adder.py"],
     [("operators", "src/qrisp/qtypes/quantum_float.py"), ("comparisons", "src/qrisp/alg_primitives/arithmetic/comparisons.py"), ("polynomial encoding", "src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py")])

prop("C18", "Every named adder, multiplier and numeric function computes its function",
     "Each of the selectable adders adds its first operand to the second modulo the size of the target, with every option, with carries in and out, for classical and quantum summands of any size, under control, nested control and inversion. Each multiplier, the polynomial encoder, the comparisons that take an adder, and the division, inversion, rounding, extreme and integer root functions give the exact result to the stated precision. All of them keep their operands, add no value-dependent phase and return their temporary qubits to zero.",
     ["inputs", "configurations", "programs"], "all adders with all documented options on targets of up to six qubits, all multipliers and numeric functions on operands of up to four bits with exponents between -3 and 1",
     "The adders are selected by the user and have branches for sizes, radices, carries and controls that are rarely combined in tests; most tests use one size and look at values, not at phases.",
     ["src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py", "src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py", "src/qrisp/alg_primitives/arithmetic/adders/fourier_adder.py", "src/qrisp/alg_primitives/arithmetic/adders/incrementation.py", "src/qrisp/alg_primitives/arithmetic/adders/qcla/wrapper_function.py", "src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py", "src/qrisp/alg_primitives/arithmetic/ripple_mult.py", "src/qrisp/alg_primitives/arithmetic/ripple_division.py", "src/qrisp/alg_primitives/arithmetic/uint_clifford_t_comparisons.py"],
     [("adder with carries", "src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py"), ("hybrid multiplication", "src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py"), ("comparison from an adder", "src/qrisp/alg_primitives/arithmetic/uint_clifford_t_comparisons.py")])

prop("C19", "Arithmetic modulo a number gives the reduced result of exact arithmetic",
     "Sums, differences and products of quantum numbers modulo N, with each other and with classical numbers, in place and into a new number, hold the exact result reduced modulo N for every pair of values, whatever Montgomery shift the operands carry (products for odd N, in-place products for invertible factors). This holds for every selectable adder and under control and inversion, and comparisons are true exactly where they hold. Operands are left as they were, no value-dependent phase appears, and temporary qubits return to zero.",
     ["inputs", "programs"], "all operators for moduli up to seven (products up to nine), Montgomery shifts from -1 to 3, classical operands inside and outside the range, four adders; all valid basis states up to 80, a spread sample above",
     "The representation of a product depends on the history of its factors, and a wrong shift or reduction shows only for some moduli and values; tests multiply a few numbers in standard representation.",
     ["src/qrisp/qtypes/quantum_modulus.py", "src/qrisp/alg_primitives/arithmetic/modular_arithmetic/modular_multiplication.py", "src/qrisp/alg_primitives/arithmetic/modular_arithmetic/modular_qft_addition.py", "src/qrisp/alg_primitives/arithmetic/modular_arithmetic/modular_qft_multiplication.py", "src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py", "src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py"],
     [("operators", "src/qrisp/qtypes/quantum_modulus.py"), ("Montgomery reduction", "src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py"), ("modular addition", "src/qrisp/alg_primitives/arithmetic/modular_arithmetic/modular_qft_addition.py")])

prop("C20", "Building blocks of algorithms act as the operator they stand for",
     "Fourier transforms, case distinctions on a quantum index, demultiplexing and quantum indexing, cyclic shifts and permutations, reflections, amplification and Grover search, phase and amplitude estimation, phase functions and phase tags, dictionary and truth table look-ups, state preparation and linear combinations of unitaries act on every input as the operator or state of their definition, including the phases. This holds for every documented option, for quantum variables, arrays and lists of qubits, and inside control and inversion blocks. Temporary qubits return to zero, and combinations of options without a meaning are refused.",
     ["inputs", "programs"], "registers of up to 5 qubits (shifts up to 7, dictionaries up to 5), the listed options one at a time and in pairs; all basis states of up to 6 qubits, a spread sample above",
     "A wrong relative phase, bit order or option branch does not change the outcome probabilities that tests look at, and appears only for some register sizes and option combinations.",
     ["src/qrisp/alg_primitives/qft.py", "src/qrisp/alg_primitives/program_control/quantum_switch.py", "src/qrisp/alg_primitives/program_control/switch_case.py", "src/qrisp/alg_primitives/iterable_processing.py", "src/qrisp/alg_primitives/reflection.py", "src/qrisp/alg_primitives/amplitude_amplification.py", "src/qrisp/alg_primitives/qpe.py", "src/qrisp/alg_primitives/qae.py", "src/qrisp/algorithms/grover/grover_tools.py", "src/qrisp/core/quantum_dictionary.py", "src/qrisp/alg_primitives/dicke_state_prep.py", "src/qrisp/alg_primitives/unbalanced_w_state.py", "src/qrisp/alg_primitives/lcu.py"],
     [("Fourier transform", "src/qrisp/alg_primitives/qft.py"), ("quantum switch", "src/qrisp/alg_primitives/program_control/quantum_switch.py"), ("quantum indexing and shifts", "src/qrisp/alg_primitives/iterable_processing.py"), ("phase tags", "src/qrisp/algorithms/grover/grover_tools.py"), ("dictionaries", "src/qrisp/core/quantum_dictionary.py")])

prop("C21", "Cost operators, mixers and cost functions describe the same optimisation problem",
     "For every ready-made optimisation problem the cost operator turns each allowed solution by an angle proportional to its cost, and the classical cost function gives the expected cost of a distribution, with the documented value for solutions that are not allowed. Starts are allowed solutions, and mixers take allowed solutions to allowed solutions only and reach every allowed change of one bit (or every neighbouring pair, where the number of ones is kept). A reduction step keeps exactly the parts of the problem that are compatible with the chosen correlation.",
     ["inputs", "programs"], "cut, binary quadratic, parity, satisfiability, independent set, clique, set packing, set cover and colouring problems with up to four variables (eight qubits for colourings); all solutions and distributions over them",
     "Optimisation results are approximate, so tests accept a wide range of costs; an operator for a slightly different problem still gives plausible results.",
     ["src/qrisp/algorithms/qaoa/mixers.py", "src/qrisp/algorithms/qaoa/problems/maxCut.py", "src/qrisp/algorithms/qaoa/problems/QUBO.py", "src/qrisp/algorithms/qaoa/problems/eThrLinTwo.py", "src/qrisp/algorithms/qaoa/problems/maxSat.py", "src/qrisp/algorithms/qaoa/problems/maxIndepSet.py", "src/qrisp/algorithms/qaoa/problems/maxClique.py", "src/qrisp/algorithms/qaoa/problems/maxSetPacking.py", "src/qrisp/algorithms/qaoa/problems/minSetCover.py", "src/qrisp/algorithms/qaoa/problems/maxKColorableSubgraph.py", "src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py", "src/qrisp/algorithms/qiro/qiroproblems/qiroMaxClique.py", "src/qrisp/algorithms/qiro/qiroproblems/qiroMaxSat.py", "src/qrisp/algorithms/qiro/qiro_mixers.py"],
     [("mixers", "src/qrisp/algorithms/qaoa/mixers.py"), ("parity clauses", "src/qrisp/algorithms/qaoa/problems/eThrLinTwo.py"), ("set cover", "src/qrisp/algorithms/qaoa/problems/minSetCover.py"), ("reductions", "src/qrisp/algorithms/qiro/qiroproblems/qiroMaxIndepSet.py")])
