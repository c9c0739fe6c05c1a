PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe_at, technique, level_note, state=None, hook_needed="none"):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe_at,
        "hook_needed": hook_needed,
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": qtext},
            why_tests_cant=why,
            anchors=anchors,
            technique=technique,
            level_note=level_note,
        )
    )


S = "src/qrisp/"

prop(
    "C01",
    "Circuit algebra preserves the unitary a circuit denotes",
    "For every quantum circuit, building, copying, extending, composing, wrapping into a gate, inverting, binding symbolic "
    "parameters and transpiling yield circuits and operations whose unitary is exactly the one implied by the unitaries of "
    "the parts (inversion gives the adjoint, wrapping and transpiling change nothing, composition multiplies). "
    "The reported unitary and statevector agree with the gates the circuit contains, and the gate name together with its "
    "published parameters describes the same matrix. Modifying a copy, or a piece after it was embedded, never changes the other circuit.",
    ["inputs", "programs", "histories"],
    "all circuits over the standard gate set with nested composite and controlled operations, all parameter values incl. symbolic ones, all sequences of circuit transformations",
    "unit tests compare a handful of fixed circuits; a wrong sign or ordering shows only for particular nesting, angle, qubit order and sequence of transformations",
    [S + "circuit/quantum_circuit.py", S + "circuit/operation.py", S + "circuit/standard_operations.py", S + "circuit/transpiler.py", S + "simulator/unitary_management.py"],
    [("operation inversion and binding", S + "circuit/operation.py"), ("circuit composition", S + "circuit/quantum_circuit.py"), ("flattening of composite gates", S + "circuit/transpiler.py")],
    ["the circuit data, get_unitary and statevector_array after each transformation"],
    "reference-model monitor: every produced circuit is flattened by an independent interpreter to a dense matrix and compared with the product of reference gate matrices",
    "exploration: random circuits up to 5 qubits, nesting depth 3, special and generic angles",
)

prop(
    "C02",
    "Controlled operations act exactly on their control state and nowhere else",
    "Controlling any unitary operation with any number of controls, any control state and any exact synthesis method gives the operation that "
    "applies the base operation (including its global phase) when the controls are in the control state and the identity otherwise; controlling a "
    "controlled operation, inverting it, or wrapping it keeps this true. Every multi-controlled X, Z and phase method does so for every register "
    "size it accepts, and returns every ancilla it uses to |0>, also when built with run-time register sizes. Phase-tolerant variants permute basis states correctly and are exactly undone by their inverse.",
    ["inputs", "programs", "configurations"],
    "all base operations, control counts, control states (string or integer), synthesis methods, ancilla budgets and input superpositions",
    "tests look at measurement statistics of a few control patterns; wrong relative phases, mixed control states and dirty ancillas only show up on superposition inputs",
    [S + "circuit/operation.py", S + "circuit/controlled_operations.py", S + "core/gate_application_functions.py", S + "alg_primitives/mcx_algs/", S + "alg_primitives/logic_synthesis/gray_synthesis.py"],
    [("generic control synthesis", S + "circuit/controlled_operations.py"), ("mcx/mcz/mcp front ends", S + "core/gate_application_functions.py"), ("ancilla based mcx algorithms", S + "alg_primitives/mcx_algs/")],
    ["definition and unitary of the controlled operation", "circuit of the session after the multi-controlled gate", "compiled circuit"],
    "reference-model monitor: exact sparse simulation of the produced circuit on random complex superpositions, compared with the ideal controlled action; ancilla-clean invariant",
    "exploration: up to 4 controls with full matrices, up to 9 controls on superpositions",
)

prop(
    "C03",
    "Simulated outcome statistics follow the Born rule of the executed circuit",
    "Running any circuit, including mid-circuit measurement, reset, classically conditioned gates, repeated writes to the same classical bit and qubits "
    "that are never measured, yields exactly the joint distribution of classical outcomes that quantum mechanics assigns to the instruction sequence, "
    "independent of how the simulator groups, reorders, factorises or stores the state. With a finite number of shots the counts sum to the shots and only contain possible outcomes. "
    "Simulation never modifies the circuit, and the statevector it reports equals the state the gates prepare.",
    ["inputs", "programs", "configurations"],
    "all circuits (unitary, dynamic, wide and sparse), all placements of measurements, resets and conditions, all shot numbers",
    "tests simulate few hand written circuits; grouping, disentangling and measurement-branching heuristics only misbehave for particular combinations of instructions",
    [S + "simulator/simulator.py", S + "simulator/circuit_preprocessing.py", S + "simulator/circuit_reordering.py", S + "simulator/quantum_state.py", S + "simulator/bi_arrays.py", S + "simulator/tensor_factor.py"],
    [("measurement/reset rewriting", S + "simulator/circuit_preprocessing.py"), ("causal reordering", S + "simulator/circuit_reordering.py"), ("sparse/dense contraction", S + "simulator/bi_arrays.py")],
    ["result dictionary of run()", "statevector"],
    "reference-model monitor: an independent branch-exact interpreter computes the outcome distribution of the same instruction list and every reported distribution, count dictionary and statevector is compared",
    "exploration: dense circuits up to 9 qubits, sparse ones up to 60 qubits, dynamic ones up to 5 qubits and 4 classical bits",
)

prop(
    "C04",
    "Circuit passes and pipelines never change what a circuit does",
    "Every transformation pass, and every pipeline of passes, leaves the behaviour of the circuit unchanged: same unitary (including tracked global phase) for general passes, same state "
    "reached from |0...0> for passes that exploit fresh qubits, same unitary up to the documented relabelling of wires for swap resolution and layout, and always the same distribution of "
    "measurement outcomes, also with measurements, resets and conditioned gates in between. The documented post-condition of a pass holds on its output, and the input circuit is not modified. A pass manager runs exactly the passes it holds, in order.",
    ["inputs", "programs", "configurations", "histories"],
    "all circuits (incl. control states, phase tolerant gates, symbolic angles, dynamic instructions), all passes with all options, all pass sequences",
    "tests apply each pass to a few circuits where the rewrite is expected; unsound rewrites appear for neighbouring gates the author did not think of",
    [S + "circuit/pass_management/", S + "permeability/qc_transformations/qc_parallelization.py", S + "permeability/permeability_dag.py"],
    [("rewrite passes", S + "circuit/pass_management/passes/"), ("commutation graph", S + "permeability/permeability_dag.py"), ("pass manager", S + "circuit/pass_management/pass_manager.py")],
    ["circuit returned by a pass or pipeline"],
    "reference-model monitor: unitary, state or exact outcome distribution before and after each pass by an independent interpreter; post-condition monitors on the instruction list; list model for the pass manager",
    "exploration: up to 5 qubits, 18 instructions, 6 passes per pipeline",
)

prop(
    "C05",
    "Circuits exchanged with other frameworks keep their meaning",
    "Exporting a circuit to another framework or to a textual circuit format, and importing one, gives a circuit with the same unitary (including the phase of every controlled part), "
    "the same measurement distribution, the same register order and the same dependence on symbolic parameters and classical conditions. "
    "What cannot be represented is refused with an error rather than silently altered.",
    ["inputs", "programs"],
    "all circuits over the convertible gate set incl. composite and controlled operations, control states, symbolic parameters, mid-circuit measurement, reset and classical conditions",
    "tests convert a few textbook circuits and compare counts; wrong phases, control states, bit orders or parameter bindings need particular gates inside particular nesting",
    [S + "interface/converter/", S + "circuit/quantum_circuit.py"],
    [("Qiskit conversion", S + "interface/converter/qiskit_converter.py"), ("Cirq conversion", S + "interface/converter/cirq_converter.py"), ("PyTket conversion", S + "interface/converter/pytket_converter.py"), ("PennyLane conversion", S + "interface/converter/pennylane_converter.py")],
    ["unitary or outcome distribution of the converted circuit as computed by the other framework", "circuit obtained by importing"],
    "differential monitor: the other framework's own simulator or matrix routines against the independent reference interpretation of the original circuit",
    "exploration: random circuits up to 4 qubits incl. composites, controls, parameters and dynamic operations; round trips",
)

prop(
    "C06",
    "Quantum environments execute exactly the code their condition selects",
    "Code placed in (arbitrarily nested) control, condition, inversion, conjugation, gate-wrap, iteration and plain environments, and functions with custom control or inversion called there, "
    "acts as the mathematical composition of those constructs on the input: controlled on the stated control state or condition, inverted, conjugated or repeated. "
    "Every qubit that an environment uses internally is back in |0>, and quantum loops leave their bound unchanged.",
    ["programs", "inputs"],
    "all nestings of environments over all bodies, control states, comparison conditions and input superpositions",
    "tests exercise single environments or fixed two-level nestings and compare measurement results; the interaction of particular environment kinds, control states and sessions is combinatorial",
    [S + "environments/", S + "misc/qrange.py", S + "misc/utility.py"],
    [("control environment compilation", S + "environments/control_environment.py"), ("condition environment compilation", S + "environments/quantum_conditionals.py"), ("custom control dispatch", S + "environments/custom_control_environment.py"), ("gate wrapping", S + "misc/utility.py")],
    ["circuit of the session after leaving the outermost environment, uncompiled and compiled"],
    "reference-model monitor: a denotational interpreter evaluates the generated program tree on a dense state and is compared with exact simulation of the emitted circuit; ancilla-clean invariant",
    "exploration: random programs up to depth 4 on up to 7 user qubits prepared in generic product states",
)

prop(
    "C07",
    "Uncomputation removes variables coherently and leaves everything else alone",
    "Whenever automatic uncomputation of quantum variables succeeds, their qubits are in |0> and the state of all other variables is what it was, with relative phases, as if the removed values had never been entangled with the rest, also when values are recomputed later, in functions that uncompute their locals, and after compilation. "
    "Programs built from reversible classical logic on the removed variables can be uncomputed. "
    "Deleting with verification accepts exactly the variables that are disentangled in |0>, and verified claims about functions (not changing an argument, being classical logic) are accepted exactly when true.",
    ["programs", "inputs", "histories"],
    "all programs of allowed gates, controlled logic and arithmetic on the removed and surviving variables in all orders, all input superpositions, all subsets and orders of removal",
    "tests uncompute a few hand written functions and measure; phases, interleaving with later gates on the same qubits and gates sharing several qubits are not covered",
    [S + "permeability/", S + "misc/utility.py", S + "qtypes/quantum_bool.py", S + "core/quantum_session.py"],
    [("permeability graph", S + "permeability/permeability_dag.py"), ("uncomputation algorithm", S + "permeability/qc_transformations/unqomp.py"), ("lifted and auto_uncompute decorators", S + "misc/utility.py")],
    ["session circuit after uncomputation, raw and compiled", "exceptions of verified deletes and verified claims"],
    "reference-model monitor: a dense shadow simulation of the program, projected coherently on the values of removed variables, is compared with exact simulation of the emitted circuit; clean-qubit invariant",
    "exploration: programs of up to 14 steps on up to 11 qubits, generic superposition inputs",
)

prop(
    "C08",
    "Compiling a session preserves the action of the program it contains",
    "For every program and every choice of compile options (workspace, gate speeds, cancellation of Fourier transforms, disabled uncomputation, mid-circuit measurement, intended measurements) the compiled circuit acts on the live variables as the uncompiled program does, with every other qubit returned to |0> or discarded unentangled. "
    "Reported measurement results and joint measurements of variables are the distributions of the uncompiled state, also with symbolic parameters bound at measurement time, and measuring does not disturb the session. "
    "The compiled circuit is no larger than the uncompiled one plus the granted workspace.",
    ["programs", "configurations", "inputs"],
    "all programs mixing gates, wrapped functions, arithmetic, multi-controlled gates, environments, temporary variables and deletions with all compile options",
    "tests compile a few algorithms and compare depths or single results; reordering, qubit recycling and cancellation errors depend on the interplay of deletion points, options and gates",
    [S + "core/compilation.py", S + "core/quantum_session.py", S + "core/quantum_variable.py", S + "circuit/pass_management/", S + "permeability/", S + "misc/utility.py"],
    [("qubit allocation and reordering", S + "core/compilation.py"), ("gate fusion", S + "circuit/pass_management/"), ("measurement entry points", S + "core/quantum_variable.py")],
    ["compiled circuit", "measurement dictionaries", "session circuit before and after measuring"],
    "translation-validation monitor: exact simulation of compiled and uncompiled circuit on the same program, compared on the live variables; distributions against the Born rule",
    "exploration: programs of up to 16 steps on up to 8 qubits plus workspace, all option combinations sampled",
)

prop(
    "C09",
    "In-place adders add, under every control, carry and size",
    "Each provided in-place adder, and in-place addition on quantum floats, maps every superposition of operand values to the sum modulo the target size without changing other operands, phases or leaving garbage, for quantum and classical summands of any relative size. "
    "With a control it acts only where the control is on (carries included), and under inversion it subtracts. "
    "Carry-in is added and carry-out is the bit above the target.",
    ["inputs", "programs", "configurations"],
    "all adders (carry-ripple, logical-and, Fourier, look-ahead at any radix, measurement based), all register sizes incl. unequal and one-qubit ones, all classical values, carries, controls and input superpositions, static and traced execution",
    "tests measure basis states for a few sizes; relative phases, control-off branches with carries, unequal sizes and option combinations are never compared",
    [S + "alg_primitives/arithmetic/adders/", S + "alg_primitives/arithmetic/jasp_arithmetic/", S + "qtypes/quantum_float.py"],
    [("logical-and adder", S + "alg_primitives/arithmetic/adders/gidney_adder.py"), ("carry ripple adder", S + "alg_primitives/arithmetic/adders/cuccaro_adder.py"), ("look-ahead adder", S + "alg_primitives/arithmetic/adders/qcla"), ("Fourier adder", S + "alg_primitives/arithmetic/adders/fourier_adder.py"), ("vented adder", S + "alg_primitives/arithmetic/adders/gidney_venting_adder.py")],
    ["circuit of the session or extracted from the traced program; measured result of the measurement based adder"],
    "reference-model monitor: integer addition applied to a generic complex superposition is compared with exact simulation of the emitted circuit, ancilla-clean invariant; measurement based circuits are judged by their results on basis states and on the uniform superposition",
    "exploration: registers of 1 to 9 qubits, all adder options, superpositions of up to 40 operand tuples",
)

prop(
    "C10",
    "Fixed point expressions compute exact arithmetic on every branch",
    "Sums, differences, products, powers, divisions, comparisons, extrema, in-place updates and polynomials of quantum fixed point numbers hold, on every branch of a superposition, the exact result of rational arithmetic in the number format of the result. "
    "Operands, relative phases and ancillas are left as they were, also when expressions are nested. "
    "Results of two quantum operands never overflow; results with classical operands wrap only in the documented format.",
    ["inputs", "programs"],
    "all formats (size, exponent, sign), all values and superpositions, all classical operands, all nestings of operators, static and traced",
    "tests measure single values of a few formats; signs, exponents without overlap, extreme values and relative phases are combinatorial",
    [S + "qtypes/quantum_float.py", S + "alg_primitives/arithmetic/"],
    [("operator dispatch and result formats", S + "qtypes/quantum_float.py"), ("semi-Boolean polynomial evaluation", S + "alg_primitives/arithmetic/SBP_arithmetic.py"), ("comparisons", S + "alg_primitives/arithmetic/comparisons.py"), ("division", S + "alg_primitives/arithmetic/ripple_division.py"), ("extrema, floor, ceil", S + "alg_primitives/arithmetic/arithmetic_tools.py")],
    ["circuit of the session after the expression; result register decoded in its own format"],
    "reference-model monitor: exact rational arithmetic over a generic complex superposition of operand values against exact simulation of the emitted circuit, ancilla-clean invariant",
    "exploration: operands of up to 4 digits, exponents -2..1, superpositions of up to 24 operand tuples, expressions of up to 3 operators",
)

prop(
    "C11",
    "Modular and wide-integer arithmetic agrees with integer arithmetic",
    "Addition, subtraction, multiplication, in-place multiplication and comparison of modular quantum numbers equal arithmetic modulo N on every branch of a superposition, for each in-place adder, with and without control or inversion, in plain and shifted number representation, leaving operands, phases and ancillas as they were. "
    "Wide classical integers and the number theoretic helpers of period finding agree with integer arithmetic modulo their width.",
    ["inputs", "programs", "configurations"],
    "all moduli, residues, factors, adders, controls, representation shifts and superpositions; all wide integers incl. carries across limbs",
    "tests use a handful of moduli and basis states; wrong carries or corrections show only for particular residues or moduli",
    [S + "qtypes/quantum_modulus.py", S + "alg_primitives/arithmetic/modular_arithmetic/", S + "alg_primitives/arithmetic/jasp_arithmetic/"],
    [("modular number type", S + "qtypes/quantum_modulus.py"), ("modular addition and products", S + "alg_primitives/arithmetic/modular_arithmetic/"), ("wide integers", S + "alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py")],
    ["decoded contents of the modular registers", "wide integer results"],
    "reference-model monitor: modular integer arithmetic over a superposition of residues against exact simulation of the emitted circuit; wide-integer results against Python integers",
    "exploration: moduli up to 31, up to 16 superposed residue tuples, wide integers up to 5 limbs with boundary values",
)

prop(
    "C12",
    "Typed quantum variables hold, show and measure the values of their type",
    "A value written into a quantum variable is the value read from it, values outside the type are rejected, and prepared superpositions, phase functions, bit operations, resizing and copies act on values as the type defines them. "
    "Measurement results, joint measurement results, samples, statevector functions and symbolic statevectors of any set of variables report exactly the distribution and amplitudes of the state, labelled by values.",
    ["inputs", "programs", "histories"],
    "all value types and formats, all values and superpositions, all sequences of gates, resizing, copies and measurements",
    "tests look at a few values of each type; labels shared by several states, signs, odd formats and orders of variables in joint results are combinatorial",
    [S + "core/quantum_variable.py", S + "qtypes/", S + "misc/utility.py", S + "interface/measurement_result.py"],
    [("encoding, decoding and resizing", S + "core/quantum_variable.py"), ("value types", S + "qtypes/"), ("joint measurement and statevector expressions", S + "misc/utility.py"), ("measurement results", S + "interface/measurement_result.py")],
    ["returned distributions, labels, statevector functions and expressions"],
    "reference-model monitor: amplitudes of the emitted circuit are decoded by an independent model of each type and compared with every reporting interface of the library",
    "exploration: all value types with up to 5 qubits per variable, up to 3 variables, random programs and superpositions; symbolic expressions are judged to 1e-2 because they are displayed rounded",
)

prop(
    "C13",
    "Quantum arrays behave like numerical arrays",
    "Slices, reshapes, transpositions, concatenations, copies and deletions of quantum arrays reach exactly the elements the same operation reaches in a numerical array. "
    "Element-wise arithmetic, comparison, logic, reductions, in-place updates, dot products and matrix products yield on every branch of a superposition the array a numerical library would compute in the number format of the result, and leave operands, relative phases and ancillas as they were. "
    "Result formats advertised as overflow free hold every possible result.",
    ["inputs", "programs", "configurations"],
    "all shapes, chains of views, element formats, operand kinds (array, variable, classical array, scalar), result formats, values and superpositions",
    "tests use square arrays in basis states; views of views, non-square products, signs, wrap-around and relative phases are not covered",
    [S + "core/quantum_array.py", S + "alg_primitives/arithmetic/matrix_multiplication.py", S + "alg_primitives/arithmetic/SBP_arithmetic.py"],
    [("views, element-wise operations and reductions", S + "core/quantum_array.py"), ("matrix products", S + "alg_primitives/arithmetic/matrix_multiplication.py"), ("products in the Fourier basis", S + "alg_primitives/arithmetic/SBP_arithmetic.py")],
    ["elements reached by an index, measured arrays, circuit of the session after the operation"],
    "reference-model monitor: views are mirrored on an array of element names; operations are compared with classical array arithmetic over a generic complex superposition of the operands by exact simulation, ancilla-clean invariant",
    "exploration: up to 8 elements of up to 4 qubits, view chains of up to 6 operations, superpositions of up to 16 operand tuples",
)

prop(
    "C14",
    "Traced programs behave like the program they were written as",
    "A program traced into the dynamic intermediate form and executed in any of the offered ways (emitted circuit, simulator with real-time classical control, terminal sampling, reversible Boolean simulation) computes the classical values, measurement outcomes and quantum state that reading the source program as ordinary sequential code defines. "
    "This holds for every nesting of loops, branches, cached functions, dynamic registers and slices and for every value of the dynamic arguments.",
    ["programs", "inputs", "configurations"],
    "all programs over the traced control flow, registers, slices, gates, cached functions, classical expressions and measurements; all arguments; all execution engines",
    "tests trace fixed small programs; interactions of control flow, caching, slicing and deletion grow combinatorially",
    [S + "jasp/", S + "environments/"],
    [("program interpretation", S + "jasp/interpreter_tools/"), ("classical control flow", S + "jasp/program_control/prefix_control.py"), ("execution engines", S + "jasp/evaluation_tools/"), ("Boolean simulation", S + "jasp/interpreter_tools/interpreters/cl_func_interpreter.py")],
    ["emitted circuits, returned classical values, sampled distributions, Boolean simulation results"],
    "reference-model monitor: randomly generated programs are executed by an independent sequential interpreter on state vectors and by each engine of the library; states, values and frequencies are compared",
    "exploration: programs of up to ~10 statements nested up to 3 deep on up to 6 qubits; sampled frequencies are judged with 7 standard deviations",
)

prop(
    "C15",
    "Traced programs can be inverted and controlled at every level",
    "Inverting, controlling (on any control state) and conjugating any measurement-free traced program or part of it, by environment or by explicit transformation, singly or nested in any order, with or without custom rules, applies exactly the inverse, the controlled or the conjugated operation including phases. "
    "Converting a traced program to a circuit and back preserves the operation.",
    ["programs", "inputs", "configurations"],
    "all measurement-free traced programs, nestings of inversion, control and conjugation, control states, custom rules and arguments",
    "tests cover single transforms of fixed functions; loops, register bookkeeping and nested transforms interact",
    [S + "jasp/jasp_expression/", S + "environments/", S + "jasp/primitives/", S + "alg_primitives/mcx_algs/"],
    [("inversion", S + "jasp/jasp_expression/inversion_transform.py"), ("control", S + "jasp/jasp_expression/control_transform.py"), ("environments in traced programs", S + "environments/"), ("custom rules", S + "environments/custom_control_environment.py"), ("multi-controlled gates", S + "alg_primitives/mcx_algs/")],
    ["unitary action of the emitted circuit on the registers and controls"],
    "reference-model monitor: the action of generated programs under generated transforms on a generic complex state is compared, phases included, with the transform applied to the reference action",
    "exploration: programs of up to ~8 statements, up to 3 nested transforms, up to 4 controls",
)

prop(
    "C16",
    "Resource estimates equal the resources of the executed program",
    "Gate counts, depth and qubit numbers estimated for a traced program with given arguments and assumed measurement results equal those of the circuit the program emits for the same arguments and results. "
    "Estimation options that only concern compilation effort do not change the figures.",
    ["programs", "inputs", "configurations"],
    "all traced programs incl. loops, branches, slices and measurement feedback, all arguments, assumed measurement results and estimation options",
    "tests compare a few fixed programs; register handles, branches not taken and cached functions are combinatorial",
    [S + "jasp/interpreter_tools/interpreters/", S + "jasp/evaluation_tools/profiler.py"],
    [("gate counting", S + "jasp/interpreter_tools/interpreters/count_ops_metric.py"), ("depth", S + "jasp/interpreter_tools/interpreters/depth_metric.py"), ("qubit numbers", S + "jasp/interpreter_tools/interpreters/num_qubits_metric.py"), ("evaluation of control flow", S + "jasp/interpreter_tools/interpreters/profiling_interpreter.py")],
    ["returned estimates", "emitted circuit"],
    "reference-model monitor: estimates of generated programs are compared with figures recomputed from the emitted circuit (recounted gates, as-soon-as-possible depth, allocation high-water mark); measurement feedback is compared with a sequential interpreter",
    "exploration: programs of up to ~8 statements nested up to 3 deep, with and without compilation callbacks",
)

prop(
    "C17",
    "Compiled, separated and repeated traced programs give the program's outcomes",
    "The outcomes of a traced program have the values and probabilities its source defines when it is compiled to a native executable, when its circuit is run and the recorded measurement bits are passed to the separately extracted classical part, and when samples are passed through a user function inside or outside of tracing. "
    "A subroutine repeated until success ends in exactly the state and classical values of a successful trial, whatever registers and numbers the loops and branches take from the surrounding code.",
    ["programs", "inputs", "histories", "configurations"],
    "all traced programs with measurements, loops and branches; all measurement records; all slices and registers measured; all trial functions, conditions and static arguments; all post-processing functions; all arguments",
    "tests compile and separate a handful of programs with one record each; the number of records, captured values and slices is unbounded",
    [S + "jasp/evaluation_tools/", S + "jasp/interpreter_tools/", S + "jasp/program_control/"],
    [("native compilation", S + "jasp/interpreter_tools/interpreters/catalyst_interpreter.py"), ("classical part", S + "jasp/interpreter_tools/interpreters/post_processing_interpreter.py"), ("repetition", S + "jasp/program_control/rus.py"), ("sampling", S + "jasp/program_control/sampling.py"), ("terminal sampling", S + "jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py")],
    ["outputs of compiled programs, of the extracted classical part for given measurement bits, of repeated subroutines, samples"],
    "reference-model monitor: every branch of a random program is enumerated with its measurement record by an independent interpreter; the extracted classical part is evaluated on these records, compiled programs and repeated subroutines are executed and their outcomes compared",
    "exploration: programs of up to ~10 statements on up to 6 qubits; outcomes of compiled programs are judged by support and by frequency (7 standard deviations); states of compiled programs are checked by undoing an independently prepared copy",
)

prop(
    "C18",
    "Qubit operator algebra and its forms agree with the matrices",
    "Sums, products, scalings, adjoints, commutators, inverses and in-place updates of qubit operators give the operator whose matrix is the same expression of the matrices, operands stay unchanged, and every conversion (Pauli form, dense and sparse matrix, text, reconstruction from matrices, lowest energy) shows the same operator. "
    "Commutation predicates are truthful, groupings partition the operator into groups with the requested relation, and the basis change offered for a group diagonalises it with the stated signs.",
    ["inputs", "programs", "configurations"],
    "all expressions over Pauli, ladder and projector factors with integer, real and complex coefficients, all conversions and groupings",
    "tests check a few hand-picked identities; the product table over seven factor types, signs and complex coefficients is combinatorial",
    [S + "operators/qubit/", S + "operators/hamiltonian_tools.py", S + "operators/hamiltonian.py"],
    [("term products", S + "operators/qubit/qubit_term.py"), ("operator algebra and conversions", S + "operators/qubit/qubit_operator.py"), ("commuting basis change", S + "operators/qubit/commutativity_tools.py"), ("grouping", S + "operators/hamiltonian_tools.py")],
    ["returned operators", "matrices, text and numbers computed from them", "circuits appended by a basis change"],
    "reference-model monitor: generated expressions are evaluated with dense matrices built independently; basis-change circuits are observed with the independent simulator",
    "exploration: up to 5 qubits, expression depth up to 3, up to ~8 terms",
)

prop(
    "C19",
    "Expectation values and time evolution of qubit operators are correct",
    "The expectation value of the Hermitian part of an operator, for every measurement grouping and compilation option, is the quantum mechanical value of the prepared state: exactly with exact probabilities, within the requested precision with sampling. "
    "Time evolution of an operator equals the exponential of its Hermitian part, phase included: exactly for commuting terms and single terms, otherwise within the product formula error, also when controlled, inverted, repeated or traced.",
    ["programs", "inputs", "configurations"],
    "all operators (Pauli, ladder, projector factors; complex coefficients), states, groupings, step counts, times, control states and execution modes",
    "tests compare single molecules with loose tolerances, which hides wrong signs and missing phases of rare factor combinations",
    [S + "operators/qubit/"],
    [("measurement settings", S + "operators/qubit/measurement.py"), ("traced measurement", S + "operators/qubit/jasp_measurement.py"), ("term simulation", S + "operators/qubit/qubit_term.py"), ("product formula", S + "operators/qubit/qubit_operator.py")],
    ["returned expectation values", "state after an evolution"],
    "reference-model monitor: dense matrix exponentials and expectation values; an exact-probability backend removes sampling noise; non-commuting evolution is bounded by the commutator error bound computed from the matrices",
    "exploration: up to 4 qubits and 5 terms, random product and entangled states",
)

prop(
    "C20",
    "Fermionic operators obey their algebra, mapping and dynamics",
    "Expressions, in-place updates, reduced forms, imports and texts of fermionic operators denote the operator given by the anticommutation relations, their qubit form is its Jordan-Wigner image, and equality is reported exactly for operators that agree (up to conjugate terms). "
    "Expectation values and time evolutions are those of the Hermitian part, molecular Hamiltonians have the reference ground state energies of the chemistry package, and the chemistry ansatz conserves particle number and spin.",
    ["programs", "inputs", "configurations"],
    "all ladder products (repeated indices included), complex coefficients, evolution times, steps and control states; small molecules with all geometries and active spaces",
    "tests check printed strings of a few operators and one molecule; permutation signs and repeated indices are combinatorial",
    [S + "operators/fermionic/", S + "algorithms/vqe/problems/electronic_structure.py"],
    [("term sorting and signs", S + "operators/fermionic/fermionic_term.py"), ("reduction, equality", S + "operators/fermionic/fermionic_operator.py"), ("swap network evolution", S + "operators/fermionic/trotterization.py"), ("molecular integrals", S + "algorithms/vqe/problems/electronic_structure.py")],
    ["returned operators and numbers", "state after an evolution"],
    "reference-model monitor: dense Jordan-Wigner matrices; commutator error bound for evolutions; full configuration interaction energies from the chemistry package",
    "exploration: up to 4 modes and 5 terms of up to 4 ladder operators; molecules with up to 12 spin orbitals",
)

prop(
    "C23",
    "Prepared states have exactly the requested amplitudes",
    "Initialising a variable with amplitudes given as a vector or by labels yields exactly the normalised state, global phase included, for every method and value type, also under controls, inverses, in traced programs and with vectors only known at run time. "
    "Invalid requests are refused without touching the variable.",
    ["inputs", "configurations", "programs"],
    "all amplitude vectors (dense, sparse, real, negative, zero blocks, any scale), sizes, value types, methods and environments",
    "tests prepare a few fixed vectors and look at probabilities; zero blocks, negative leading amplitudes and phases under control need generated vectors",
    [S + "alg_primitives/state_preparation/", S + "core/quantum_variable.py"],
    [("dispatch and normalisation", S + "alg_primitives/state_preparation/prepare_func.py"), ("multiplexed rotations", S + "alg_primitives/state_preparation/qswitch_state_preparation.py"), ("external synthesis", S + "alg_primitives/state_preparation/qiskit_state_preparation.py"), ("label encoding", S + "core/quantum_variable.py")],
    ["amplitudes of the register after preparation"],
    "reference-model monitor: amplitudes of the emitted circuit are observed with the independent simulator and compared with the request",
    "exploration: up to 4 qubits (8 for characters), all methods and value types",
)

prop(
    "C24",
    "Selections apply the entry the selector holds, and nothing else",
    "A quantum switch applies to each selector value exactly the branch with that number (none beyond the given branches), with relative phases, for every construction, also controlled, inverted and traced, without altering the caller's list. "
    "Truth table synthesis and dictionary look-ups add exactly the table entry of each key to the target, and phase synthesis imprints exactly the requested phases (the exact methods without side phases).",
    ["inputs", "programs", "configurations"],
    "all tables, branch counts, selectors in superposition, value types, synthesis methods, environments and execution modes",
    "tests look at measured values of a few tables; wrong relative phases and rare spectra (few parity terms) remain invisible",
    [S + "alg_primitives/program_control/", S + "alg_primitives/logic_synthesis/", S + "core/quantum_dictionary.py"],
    [("switch constructions", S + "alg_primitives/program_control/quantum_switch.py"), ("deprecated switch", S + "alg_primitives/program_control/switch_case.py"), ("gray synthesis", S + "alg_primitives/logic_synthesis/gray_synthesis.py"), ("polynomial synthesis", S + "alg_primitives/logic_synthesis/pprm_synthesis.py"), ("dictionary", S + "core/quantum_dictionary.py")],
    ["amplitudes after the selection", "classical views of tables", "the caller's arguments"],
    "reference-model monitor: block-diagonal matrices and classical tables applied to random superpositions are compared with the emitted circuit",
    "exploration: selectors of up to 4 qubits, up to 8 branches, tables with up to 3 outputs, phases on up to 5 qubits",
)

prop(
    "C25",
    "Algorithmic primitives produce the states the theory prescribes",
    "Fourier transforms, phase and amplitude estimation, reflections, amplitude amplification, linear combinations of unitaries, Dicke and W states act on every input state exactly as their defining formulas, for all options, argument kinds and execution modes, also when controlled. "
    "Iterative estimations return the phase or amplitude within the requested accuracy.",
    ["inputs", "programs", "configurations"],
    "all input states, register sizes, prepared states, oracles, options and execution modes",
    "tests check peaks of measured distributions of single instances; phases under control and option combinations are not observable there",
    [S + "alg_primitives/" + f for f in ("amplitude_amplification.py", "dicke_state_prep.py", "iterative_qae.py", "iterative_qpe.py", "lcu.py", "qae.py", "qft.py", "qpe.py", "reflection.py", "unbalanced_w_state.py")],
    [("Fourier transform", S + "alg_primitives/qft.py"), ("phase estimation", S + "alg_primitives/qpe.py"), ("iterative phase estimation", S + "alg_primitives/iterative_qpe.py"), ("reflection", S + "alg_primitives/reflection.py"), ("amplitude amplification", S + "alg_primitives/amplitude_amplification.py"), ("iterative amplitude estimation", S + "alg_primitives/iterative_qae.py"), ("linear combination", S + "alg_primitives/lcu.py"), ("Dicke and W states", S + "alg_primitives/dicke_state_prep.py")],
    ["amplitudes after the primitive", "returned estimates"],
    "reference-model monitor: dense linear algebra of the defining formulas on random input states against the emitted circuit",
    "exploration: up to 5 qubits; iterative amplitude estimation with failure probability 1e-7",
)

prop(
    "C21",
    "Block encodings encode the stated operator with the stated factor",
    "The part of a block encoding's unitary with all ancillae in zero, times the scaling factor, is exactly the operator it stands for, for every constructor and for all sums, differences, multiples, products, tensor products, adjoints, walk operators and Chebyshev operators built from them, also when controlled or traced. "
    "A unitary declared Hermitian is Hermitian, and the scaling factor bounds the norm.",
    ["programs", "inputs", "configurations"],
    "all operators, coefficient kinds, operand numbers, expressions and execution modes",
    "tests compare measured distributions of a handful of encodings; relative phases and declared symmetries only show in later transformations",
    [S + "block_encodings/"],
    [("algebra", S + "block_encodings/block_encoding_base.py"), ("linear combinations", S + "block_encodings/constructors/from_lcu.py"), ("operators and arrays", S + "block_encodings/constructors/from_operator.py"), ("projectors", S + "block_encodings/constructors/from_projector.py"), ("shifts", S + "block_encodings/constructors/from_eye.py")],
    ["ancilla-zero block of the emitted circuit", "declared symmetry", "estimated expectation values"],
    "reference-model monitor: random expressions of block encodings are evaluated in dense matrices and in the emitted circuits on random states",
    "exploration: operands of up to 4 qubits, expressions of depth 2, up to 11 qubits in total",
)

prop(
    "C29",
    "Polynomial transformations apply the requested function of the operator",
    "Signal processing, eigenvalue and singular value transformations, Hamiltonian simulation, (pseudo) inversion, kernel reflection, convolution and Fourier loading encode exactly the requested polynomial (or the documented approximation within its precision) of the given operator, for every polynomial, basis, parity, method and operator.",
    ["inputs", "configurations", "programs"],
    "all real and complex polynomials, Hermitian and general operators, bases, parities, shifts and methods",
    "tests use a few real polynomials and Hermitian operators and look at measured distributions",
    [S + "algorithms/gqsp/", S + "block_encodings/transformations/"],
    [("angles", S + "algorithms/gqsp/gqsp_angles.py"), ("signal processing", S + "algorithms/gqsp/gqsp.py"), ("eigenvalue transformations", S + "algorithms/gqsp/qet.py"), ("singular value transformations", S + "algorithms/gqsp/qsvt.py"), ("inversion", S + "algorithms/gqsp/inversion.py"), ("basis change", S + "algorithms/gqsp/helper_functions.py")],
    ["ancilla-zero block of the emitted circuit", "angles evaluated on the unit circle"],
    "reference-model monitor: matrix functions by eigen- and singular value decomposition against the emitted circuits on random states",
    "exploration: operators on up to 2 qubits, polynomials of degree up to 6 (12 for angles), condition numbers up to 4",
)

prop(
    "C28",
    "Variational problems encode their cost, constraints and trained circuits",
    "For every optimisation problem instance the phase separator marks each assignment with a phase proportional to its cost, constrained mixers never leave the feasible assignments, and the classical cost is the average cost of the given outcomes. "
    "The compiled ansatz, the cost handed to the optimiser, the reported distribution and the trained circuit all belong to the same documented sequence of layers at the same angles, and the caller's arguments are left alone.",
    ["inputs", "programs", "configurations"],
    "all graphs, clause sets, set systems, cost matrices, angles, depths, start types and execution modes",
    "tests run whole optimisations on fixed instances with loose thresholds, which a wrong sign, weight or constraint usually survives; most of these modules are outside the quick suite",
    [S + "algorithms/qaoa/", S + "algorithms/vqe/", S + "algorithms/qite.py"],
    [("problems", S + "algorithms/qaoa/problems/"), ("mixers", S + "algorithms/qaoa/mixers.py"), ("ansatz and training", S + "algorithms/qaoa/qaoa_problem.py"), ("energy minimisation", S + "algorithms/vqe/vqe_problem.py"), ("imaginary time evolution", S + "algorithms/qite.py"), ("benchmark data", S + "algorithms/qaoa/qaoa_benchmark_data.py")],
    ["amplitudes of the emitted circuit", "values handed to the optimiser", "returned distributions, circuits, rankings and costs"],
    "reference-model monitor: brute-force models of the problems and dense matrices against emitted circuits; a recording stand-in for the optimiser observes every cost evaluation",
    "exploration: up to 5 bits for circuits, up to 60 nodes for classical costs, depth up to 3 (12 for ansatz parameters)",
)

prop(
    "C22",
    "Every submitted measurement delivers its own result, under any schedule of use",
    "A measurement result shows the state, value format and shots at the moment it was requested, whatever is done to the variable, the session, the queue or the backend before it is read; pending, failed and cancelled work never looks like a result. "
    "Jobs report consistent, monotone statuses and the same result however often and in whatever order they are asked, and options reach exactly the runs they were set for.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "all interleavings of measuring, modifying, dispatching, clearing and reading; all fault and status sequences of backends; all option updates",
    "tests submit, dispatch and read in one fixed order; whether a result survives later operations, partial failures or repeated queries depends on the history",
    [S + "interface/", S + "core/quantum_variable.py", S + "core/quantum_array.py", S + "misc/utility.py"],
    [("batching", S + "interface/batched_backend.py"), ("lazy results", S + "interface/measurement_result.py"), ("jobs", S + "interface/job.py"), ("options", S + "interface/backend.py"), ("provider jobs", S + "interface/provider_backends/"), ("measurement requests", S + "misc/utility.py")],
    ["delivered results", "job statuses and results", "arguments that reach a recording backend", "raised errors"],
    "history monitor: random histories over simulators, function backends and scripted stand-ins with injected faults, every handle compared with a model after every step",
    "exploration: histories of up to 14 steps, batches of up to 16 circuits, scripted status sequences of up to 5 steps",
)

prop(
    "C31",
    "Variables and sessions keep their state and identity through any history",
    "Creating, connecting, merging, extending, reducing, duplicating, deleting and dropping variables, inside and outside of environments and with garbage collections at any moment, leaves the joint quantum state exactly as the applied operations say. "
    "Variables that interacted share one session, names given by the user stay and are unique, verified deletion accepts exactly the clean variables, and no variable disappears that was not deleted.",
    ["histories", "schedules", "programs"],
    "all histories of variable and session operations, all garbage collection points",
    "tests build one short program per feature; merging order, name collisions, reference dropping and collection moments only matter in combination",
    [S + "core/", S + "environments/", S + "permeability/uncomputation.py"],
    [("session merging", S + "core/session_merging_tools.py"), ("session registry", S + "core/quantum_session.py"), ("variable lifecycle", S + "core/quantum_variable.py"), ("environment entry and exit", S + "environments/quantum_environments.py"), ("local variables", S + "permeability/uncomputation.py")],
    ["amplitudes of the session's circuit", "session membership, names and deletion status", "raised errors"],
    "history monitor with invariants after every step; a profiling hook forces a garbage collection at every call and return of the package",
    "exploration: up to 13 live qubits, up to 12 top-level steps with environments nested up to 3 deep",
)

prop(
    "C26",
    "Shifts, permutations and quantum addressing move exactly the addressed entries",
    "Cyclic shifts by classical or quantum amounts, permutations, demultiplexing, quantum-indexed array access and loops with a quantum bound move, read or modify exactly the entries that the index, amount or bound selects in every branch of a superposition. "
    "All other entries, the index registers and all relative phases stay as they were.",
    ["inputs", "configurations", "programs"],
    "all lengths, entry types, shift amounts, permutations, index values and superpositions",
    "tests use one array of eight entries and a few shifts on basis states; wrong phases and odd lengths are invisible there",
    [S + "alg_primitives/iterable_processing.py", S + "core/quantum_array.py", S + "misc/qrange.py"],
    [("shifts and permutations", S + "alg_primitives/iterable_processing.py"), ("quantum indexing", S + "core/quantum_array.py"), ("quantum loops", S + "misc/qrange.py")],
    ["amplitudes of the emitted circuit on random superpositions"],
    "reference-model monitor: index arithmetic on Python tuples against the exact action of the emitted circuits, phases included",
    "exploration: up to 9 entries of one qubit or 6 entries of two, amounts up to twice the length, three index dimensions",
)

prop(
    "C27",
    "Exported stabilizer programs keep records, detectors, observables and handles",
    "A program exported to the stabilizer format has the same joint distribution of measurement records, detectors and observables as the program itself, with noise, resets, classical conditions and array operations on results. "
    "Every handle returned with the export refers to exactly the result, parity or qubit the program returned, and automatically found detectors are deterministic in the absence of noise.",
    ["programs", "inputs", "configurations"],
    "all Clifford programs with measurements, noise channels, parities, classical conditions and array manipulations of results",
    "tests export a repetition code and a few fixed circuits; index shifts between records, detectors and handles appear only with several rounds, interleaved measurements or rearranged arrays",
    [S + "interface/converter/stim_converter.py", S + "jasp/evaluation_tools/stim_extraction.py", S + "jasp/primitives/parity_primitive.py", S + "jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py", S + "misc/stim_tools/"],
    [("circuit export", S + "interface/converter/stim_converter.py"), ("export of traced programs", S + "jasp/evaluation_tools/stim_extraction.py"), ("parities", S + "jasp/primitives/parity_primitive.py"), ("detector search", S + "misc/stim_tools/")],
    ["the exported circuit text and its handles", "exact joint distribution of records and detectors"],
    "reference-model monitor: a dense branch enumerator computes the joint distribution of results and parities from the program script and from the exported instruction list, and compares both through the returned handles",
    "exploration: up to 6 qubits, 6 measurements, 2 noise channels per program",
)

prop(
    "C30",
    "Declared and analysed structure of operations is true",
    "An operation reported to leave the basis values of some of its qubits alone does so on every state it is meant for, and one reported as classical logic maps basis states to basis states, whether the report was declared by the library, derived for inverses, controls, copies and wrapped functions, or found by analysis. "
    "Asked about operations nothing is declared for, the analysis answers exactly, and verification of declarations accepts exactly the true ones.",
    ["programs", "inputs", "configurations"],
    "all operations and library routines, all derived forms, all valid input states",
    "a wrong declaration changes nothing by itself; it only corrupts later uncomputation or compilation in particular programs, so example tests of the routine pass",
    [S + "permeability/type_checker.py", S + "circuit/operation.py", S + "circuit/standard_operations.py", S + "misc/utility.py", S + "alg_primitives/"],
    [("analysis", S + "permeability/type_checker.py"), ("declarations of gates", S + "circuit/operation.py"), ("wrapping of functions", S + "misc/utility.py")],
    ["declared and analysed claims of every operation in emitted circuits"],
    "claim monitor: walks the circuits emitted by generated programs of the arithmetic, array, selection, addressing and uncomputation checks, and confronts every claim with the basis states the operation actually meets; matrices for operations of few qubits",
    "exploration: programs up to 62 qubits, three basis states per claiming operation, two levels of definitions",
)

prop(
    "C32",
    "Complete algorithms give the answers and states their theory prescribes",
    "Search, counting, order finding and key recovery, Monte Carlo integration, linear system solvers, imaginary time evolution, Krylov ground state search and quantum backtracking give, for every instance within their stated conditions, the classical answer or exactly the state and distribution of their defining formulas. "
    "This holds for every argument type and option, in direct and in traced execution, and leaves the caller's data unchanged.",
    ["inputs", "configurations", "programs"],
    "all oracles, marked sets, operators, trees, predicates, precisions and iteration counts within the bounds",
    "tests run one or two textbook instances per algorithm and look at the most likely outcome; wrong phases, orders, angles or special cases survive that",
    [S + "algorithms/grover/", S + "algorithms/quantum_counting.py", S + "algorithms/shor/", S + "algorithms/qmci.py", S + "algorithms/hhl.py", S + "algorithms/cks.py", S + "algorithms/qite.py", S + "algorithms/lanczos.py", S + "algorithms/quantum_backtracking/"],
    [("search and tagging", S + "algorithms/grover/grover_tools.py"), ("order finding", S + "algorithms/shor/shors_algorithm.py"), ("key recovery", S + "algorithms/shor/crypto_tools.py"), ("polynomial linear solver", S + "algorithms/cks.py"), ("imaginary time evolution", S + "algorithms/qite.py"), ("Krylov moments and reduced problem", S + "algorithms/lanczos.py"), ("backtracking walk", S + "algorithms/quantum_backtracking/backtracking_tree.py")],
    ["amplitudes of the emitted circuits", "returned counts, orders, factors, messages, integrals, energies and paths"],
    "reference-model monitor: dense linear algebra and classical enumeration of the instance against the exact action of the emitted circuits and the returned answers",
    "exploration: search spaces up to 4 qubits, moduli up to 15, trees up to depth 3, three steps of imaginary time, Krylov dimension up to 3 (reduced problems up to 5)",
)

prop(
    "C33",
    "Exported intermediate representation means the same as the program",
    "Exporting a traced program to its compiler intermediate representation, in the plain and in the lowered form, yields a module whose execution gives, for every argument, the outcome probabilities, final amplitudes, classical results and parities of the program. "
    "Conditions, loops, switches, functions, measured values used as conditions or angles, qubit allocation, slicing, reset and deletion keep their meaning and order, and the text of the module shows every gate with its operands.",
    ["inputs", "programs", "configurations"],
    "all programs of the generator (control flow, environments, functions, measurements, arithmetic, parities, classical expressions over measured values) and arguments within the bounds, plain and lowered form",
    "tests look for operation names in a few exported programs; a wrong branch order, fold of a comparison, operand order or loop condition only shows when the module is executed",
    [S + "jasp/mlir/"],
    [("lowering of quantum operations", S + "jasp/mlir/jasp_lowering_rules.py"), ("control flow with quantum types", S + "jasp/mlir/quantum_control_flow.py"), ("folding of comparisons of truth values", S + "jasp/mlir/mlir_rewrites/cmpi_extui_folding.py"), ("folding of scalar operations", S + "jasp/mlir/mlir_rewrites/scalar_linalg_folding.py"), ("dialect and its text", S + "jasp/mlir/xdsl_dialect.py"), ("decomposition of composite gates", S + "jasp/interpreter_tools/interpreters/composite_gate_interpreter.py")],
    ["operations of the exported module executed one after the other", "text of the module"],
    "reference-model monitor: an interpreter of the exported operations that follows every measurement outcome against an independent interpreter of the source program, with a check that every quantum state is used in order",
    "exploration: up to 6 program qubits (14 with ancillas), control flow depth 3, 400 measurement histories per program",
)

prop(
    "C34",
    "Counterdiabatic driving follows its schedule and reports true costs",
    "Local and optimised counterdiabatic driving prepare exactly the state obtained from the initial state by the sequence of evolutions under the initial, problem, gauge and control operators at the scheduled times, with the control pulse and its derivative belonging to the schedule. "
    "The predefined instances encode the cost matrix, start in the ground state of their initial operator, and use gauge coefficients that minimise the action. "
    "Objectives, reported probabilities and costs are those of the driven state and of the cost matrix.",
    ["inputs", "configurations"],
    "all commuting operator sets, schedules, step counts, pulses, preparations and symmetric cost matrices within the bounds",
    "tests accept any distribution in which the best bitstring is among the five most likely of sixteen; wrong signs, missing terms and wrong coefficients survive that",
    [S + "algorithms/cold/"],
    [("driven evolution", S + "algorithms/cold/dcqo_problem.py"), ("minimisation of the action", S + "algorithms/cold/AGP_params.py"), ("predefined instances", S + "algorithms/cold/problems/QUBO.py"), ("figures of merit", S + "algorithms/cold/cold_benchmark.py")],
    ["amplitudes of the emitted circuits", "coefficients, objectives, results and costs returned"],
    "reference-model monitor: dense evolution, dense least squares of the action and enumeration of the cost function against emitted circuits, returned coefficients and results",
    "exploration: up to 4 qubits (5 for instances), 4 steps, 3 pulse parameters",
)
