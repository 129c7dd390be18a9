"""Writes /verif/properties.jsonl (kept as code so that the records stay uniform)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "A compiled circuit runs as the circuit on every measurement outcome",
 "Whatever measurement outcomes occur while a compiled pattern (or compiled flow) runs, its output quantum state equals, up to global phase, the circuit applied to the same input, for every gate set, swap handling, gate-lowering pass and input state. For circuits with mid-circuit measurements, the reported classical bits, in circuit order, together with the residual state occur with exactly the circuit's joint distribution. A circuit that acts on a qubit after measuring it is refused, not run or compiled into something else.",
 ["inputs", "schedules", "programs"],
 "all circuits over the instruction set; all outcome sequences of all measurements (internal and user-requested); all input states; all transpilation variants (with/without swap elimination, J/CZ lowering, Z-axis measurement normalisation, flow or pattern target)",
 "Tests sample a few random circuits and one random outcome sequence each; the number of outcome branches is exponential and most tests measure no qubit mid-circuit.",
 ["graphix/transpiler.py", "graphix/instruction.py", "graphix/flow/core.py", "graphix/simulator.py"],
 [("gate lowering to J and CZ", "graphix/transpiler.py: instructions_to_jcz, decompose_*"),
  ("causal flow construction from J/CZ", "graphix/transpiler.py: Circuit.transpile_to_causalflow"),
  ("swap elimination", "graphix/transpiler.py: transpile_swaps"),
  ("byproduct corrections from flow", "graphix/flow/core.py: XZCorrections.to_pattern")],
 ["Circuit.transpile()", "Circuit.transpile_to_causalflow()", "Circuit.simulate()", "Pattern.simulate()", "TranspiledPattern.classical_outputs"])

prop("C02", "Flow-derived patterns are deterministic on every outcome branch",
 "A pattern generated from an open graph with causal, generalised or Pauli flow implements the same linear map on every sequence of measurement outcomes, all equally likely, whichever flow was used and whatever correction-compatible measurement order was requested. Requesting an incompatible order, or a flow for a graph whose returned flow does not satisfy that flow's defining conditions, is refused rather than compiled.",
 ["inputs", "schedules", "programs"],
 "all open graphs with planar and Pauli measurements, inputs, outputs and output Cliffords that have a flow; all compatible total measurement orders; all outcome branches",
 "Tests use a fixed gallery of small graphs and compare one or two random outcome samples; measurement order and outcome branches are both exponential.",
 ["graphix/opengraph.py", "graphix/flow/core.py", "graphix/flow/_find_gpflow.py", "graphix/flow/_find_cflow.py", "graphix/flow/_partial_order.py"],
 [("flow finding", "graphix/flow/_find_gpflow.py, graphix/flow/_find_cflow.py"),
  ("corrections from flow", "graphix/flow/core.py: *Flow.to_xzcorrections"),
  ("order compatibility check", "graphix/flow/core.py: XZCorrections.to_pattern, is_compatible"),
  ("flow well-formedness", "graphix/flow/core.py: check_well_formed")],
 ["OpenGraph.to_pattern()", "OpenGraph.to_causalflow/gflow/pauliflow()", "XZCorrections.to_pattern()"])

prop("C03", "Pattern rewriting preserves behaviour outcome by outcome",
 "Any sequence of the offered pattern transformations (standardisation, signal shifting, space and depth optimisation, Pauli-measurement inference, pushing and removal, local-Clifford absorption, domain simplification, input removal, relabelling, conversion through flow, correction or open-graph form) yields a runnable pattern implementing the same map: same input and output interface, same joint distribution of the states produced, and, for transformations that keep or explicitly relabel outcomes, the same state on every corresponding outcome branch.",
 ["programs", "schedules", "histories", "inputs"],
 "all runnable patterns; all finite sequences of rewrites in any order and on copies or in place; all outcome branches of the original and rewritten pattern",
 "Each rewrite is tested alone on random Clifford/rotation circuits with one sampled run; compositions of rewrites and branch-by-branch equality are not exercised.",
 ["graphix/pattern.py", "graphix/optimization.py", "graphix/remove_pauli_measurements.py", "graphix/space_minimization.py", "graphix/flow/core.py"],
 [("command commutation / standardisation", "graphix/optimization.py: StandardizedPattern, graphix/pattern.py: standardize"),
  ("signal shifting and outcome relabelling", "graphix/pattern.py: shift_signals, shift_outcomes, extract_signals"),
  ("Pauli pushing and removal", "graphix/pattern.py: perform_pauli_pushing; graphix/remove_pauli_measurements.py"),
  ("space minimisation", "graphix/space_minimization.py"),
  ("domain simplification", "graphix/optimization.py: single_qubit_domains, remove_useless_domains")],
 ["Pattern.standardize()", "Pattern.shift_signals()", "Pattern.minimize_space()", "Pattern.parallelize_pattern()", "Pattern.perform_pauli_pushing()", "Pattern.remove_pauli_measurements()", "Pattern.infer_pauli_measurements()", "Pattern.to_bloch()", "Pattern.remove_local_clifford_commands()", "Pattern.remove_input_nodes()", "Pattern.reindex()", "Pattern.to_xzcorrections().to_pattern()"])

prop("C04", "Every simulation backend follows quantum mechanics for every outcome history",
 "For every runnable command sequence, input state and outcome history, each backend (state vector with any preallocated capacity, density matrix, tensor network on the patterns it supports) reports the same post-measurement state as the measurement-based semantics, up to global phase, and offers each outcome with exactly its Born-rule conditional probability. An outcome of probability zero is never selected, the chosen outcome is recorded and returned, and the final state lists qubits in the declared output order.",
 ["inputs", "schedules", "histories", "configurations"],
 "all runnable patterns; all outcome histories and random-number streams including extreme draws; all backends, capacities, dtypes offered, input-state forms and branch selectors",
 "Backends are compared pairwise on sampled runs with symmetric probabilities (0.5); capacity growth paths, extreme random draws and biased outcomes are hardly reached.",
 ["graphix/simulator.py", "graphix/branch_selector.py", "graphix/sim/statevec.py", "graphix/sim/density_matrix.py", "graphix/sim/tensornet.py", "graphix/sim/base_backend.py"],
 [("measurement and projection", "graphix/sim/base_backend.py: DenseStateBackend.measure, perform_measure"),
  ("outcome selection", "graphix/branch_selector.py"),
  ("state buffers with spare capacity", "graphix/sim/statevec.py: Statevec, with_capacity"),
  ("tensor network contraction", "graphix/sim/tensornet.py: MBQCTensorNet")],
 ["Pattern.simulate()", "PatternSimulator.run()", "BranchSelector.measure()", "Statevec/DensityMatrix operations"],
 state=[("node index", "position of each live node in the dense state", "graphix/sim/base_backend.py: NodeIndex"),
        ("results", "outcomes so far", "graphix/simulator.py: DefaultMeasureMethod.results")])

prop("C05", "Declared dependencies are enough for asynchronous distributed execution",
 "Any execution of a pattern that follows only its declared dependency information (the partial-order layers, correction sets, or the command domains), with nodes acting as soon as the outcomes they depend on have arrived and classical messages delayed, reordered or duplicated arbitrarily, yields the same result as the sequential run with the same outcomes. No node ever waits for itself or for a later layer, every measured node appears in exactly one layer and outputs come last, so every such execution completes once messages stop being delayed.",
 ["schedules", "fault_sequences", "programs"],
 "all patterns accepted by layer extraction; all asynchronous schedules consistent with the layers/corrections; all message delays, reorderings and duplications; all outcomes",
 "Tests compare layers with hand-written expectations for a few patterns and only ever execute the one sequential order.",
 ["graphix/pattern.py", "graphix/flow/core.py", "graphix/flow/_partial_order.py", "graphix/optimization.py"],
 [("layer extraction", "graphix/pattern.py: Pattern.partial_order_layers / extract_partial_order_layers"),
  ("layers from corrections", "graphix/flow/_partial_order.py"),
  ("correction sets", "graphix/flow/core.py: XZCorrections"),
  ("domains on commands", "graphix/command.py: M, X, Z")],
 ["Pattern.partial_order_layers()", "Pattern.to_xzcorrections()", "XZCorrections.partial_order_layers"])

prop("C06", "Noise models inject exactly the declared faults",
 "A noisy simulation returns a valid state (unit trace, Hermitian, positive) equal to the average over all fault trajectories in which each declared fault strikes at its documented place with its documented probability, correction noise strikes only when the correction fires, and readout faults flip the recorded outcome and everything depending on it. With all probabilities zero the result is the noiseless one; composed models apply each component's faults; every offered channel is trace preserving and acts as documented.",
 ["fault_sequences", "inputs", "configurations", "schedules"],
 "all noise configurations and compositions; all fault and readout-flip sequences; all outcome histories of all patterns",
 "Tests check one-or-two-qubit patterns analytically for single noise kinds; joint fault sequences with conditional corrections and compositions are not covered.",
 ["graphix/channels.py", "graphix/noise_models/noise_model.py", "graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py", "graphix/simulator.py", "graphix/sim/density_matrix.py"],
 [("noise insertion per command", "graphix/noise_models/*: transpile, input_nodes, command"),
  ("conditional noise and confusion in the run loop", "graphix/simulator.py: PatternSimulator.run, MeasureMethod"),
  ("channel application", "graphix/sim/density_matrix.py: apply_channel, apply_noise"),
  ("Kraus data", "graphix/channels.py")],
 ["Pattern.simulate(noise_model=...)", "NoiseModel.transpile/input_nodes/confuse_result", "channel factories"])

prop("C07", "Seeded runs are reproducible and isolated from each other",
 "With the random source fixed, a run (sampling, simulation, noise, compilation, rewriting, random object generation) gives bit-for-bit the same outcomes, patterns and states whatever the process hash seed, the number of other threads, and how their work interleaves. Concurrent runs with separate sources never influence one another, every documented random choice is drawn from the source the caller supplied, and the implicit default source is private to each thread.",
 ["schedules", "configurations", "inputs"],
 "all thread interleavings at operation granularity; all hash seeds; all seeds and workloads",
 "Tests run single-threaded under one hash seed and compare values, never schedules.",
 ["graphix/rng.py", "graphix/simulator.py", "graphix/branch_selector.py", "graphix/noise_models/noise_model.py", "graphix/random_objects.py", "graphix/transpiler.py", "graphix/pattern.py"],
 [("thread-local default generator", "graphix/rng.py: ensure_rng"),
  ("explicit generator threading", "graphix/simulator.py, graphix/branch_selector.py, graphix/noise_models"),
  ("order-insensitive set handling", "graphix/pattern.py, graphix/optimization.py, graphix/space_minimization.py")],
 ["Pattern.simulate(rng=...)", "Circuit.simulate(rng=...)", "rand_* functions", "transpilation and rewriting results"],
 state=[("default generator", "per-thread fallback random source", "graphix/rng.py")])

prop("C08", "A failed operation leaves every object intact and usable",
 "If an operation is refused (bad argument, violated precondition, exception raised by a caller-supplied component or callback), or a non-mutating operation is interrupted at any point (exception from a caller-supplied measurement, preparation, noise or branch component, cancellation), the pattern, circuit, open graph, flow and caller-owned inputs it was given are unchanged, and repeating the call gives the result it would have given without the failure. A refused mutating call leaves its target as it was.",
 ["crash_points", "fault_sequences", "histories"],
 "all public operations; all points at which a caller-supplied component raises or the call is cancelled; all later operations on the surviving objects",
 "Tests check that exceptions are raised but not what the objects look like afterwards, and never interrupt an operation mid-way.",
 ["graphix/pattern.py", "graphix/transpiler.py", "graphix/simulator.py", "graphix/optimization.py", "graphix/opengraph.py", "graphix/graphsim.py"],
 [("validation before mutation", "graphix/pattern.py: Pattern.add, extend, reorder_*; graphix/transpiler.py: Circuit.add"),
  ("work on copies then commit", "graphix/pattern.py: replace/clear users; graphix/optimization.py"),
  ("simulator-owned state", "graphix/simulator.py: PatternSimulator")],
 ["object equality and simulation after a failed call"])

prop("C09", "Copies are independent and read-only operations change nothing",
 "Copies, and results of operations that return new objects, share no observable mutable state with their source: any later history of mutations on either side is invisible to the other. Queries, simulation, export, drawing-free inspection and conversion operations leave their operands, and caller-supplied collections, unchanged.",
 ["histories", "schedules"],
 "all finite interleavings of mutating and non-mutating operations over an object and its copies/derived objects",
 "Tests mutate a copy once right after making it; aliasing that surfaces only after a sequence of rewrites is not reached.",
 ["graphix/pattern.py", "graphix/command.py", "graphix/transpiler.py", "graphix/optimization.py", "graphix/flow/core.py", "graphix/opengraph.py", "graphix/graphsim.py", "graphix/sim/statevec.py", "graphix/sim/density_matrix.py", "graphix/sim/tensornet.py"],
 [("Pattern.copy and copy=True options", "graphix/pattern.py"),
  ("StandardizedPattern immutability", "graphix/optimization.py"),
  ("state copies", "graphix/sim/*: copy, __deepcopy__")],
 ["Pattern.copy()", "copy= options", "simulate/space_list/to_* queries", "Statevec/DensityMatrix/GraphState copies"])

prop("C10", "Parallel kernels give the sequential result under every schedule",
 "Every compiled parallel kernel (state-vector gate, entangling, projection and expectation kernels, binary matrix product and elimination) computes the mathematically specified result for every number of threads and every order and interleaving in which the parallel iterations run, on every size on either side of the parallel threshold.",
 ["schedules", "inputs", "configurations"],
 "all iteration orders and chunkings of each parallel loop; all operand shapes, qubit positions and thread counts",
 "Tests run one thread configuration of the compiled kernel, mostly below the size at which the parallel path is chosen.",
 ["graphix/sim/statevec.py", "graphix/_linalg.py"],
 [("parallel state kernels and serial/parallel dispatch", "graphix/sim/statevec.py"),
  ("parallel GF(2) kernels", "graphix/_linalg.py: _mat_mul_jit, _elimination_jit")],
 ["Statevec.evolve/entangle/swap/remove_qubit/expectation", "MatGF2 product and elimination"])

prop("C11", "Exported OpenQASM 3 programs behave as their source; I/O faults surface",
 "The OpenQASM 3 text exported from a circuit or a pattern is a valid program that, executed on any sequence of measurement outcomes, produces the same state and classical results as its source. When writing it to disk fails at any point the failure reaches the caller, and whenever the export reports success the file holds the complete program.",
 ["programs", "schedules", "fault_sequences"],
 "all exportable circuits and patterns; all outcome sequences; all I/O fault sequences (short write, no space, interruption, write error on close)",
 "Tests compare text with expected strings or need an external parser, and the file path is written only on a healthy disk.",
 ["graphix/qasm3_exporter.py", "graphix/pattern.py"],
 [("circuit export", "graphix/qasm3_exporter.py: circuit_to_qasm3, instruction_to_qasm3"),
  ("pattern export", "graphix/qasm3_exporter.py: pattern_to_qasm3; graphix/pattern.py: to_qasm3")],
 ["circuit_to_qasm3_lines()", "circuit_to_qasm3()", "Pattern.to_qasm3()"])

prop("C12", "Binding parameters commutes with compiling, rewriting and running",
 "Substituting values for symbolic parameters gives the same behaviour whether it is done before or after compilation, before or after any rewrite, one parameter at a time or in parallel, in a circuit, pattern, open graph, flow or symbolically simulated state, on every outcome branch. An object reports itself parameterised exactly while some free parameter remains, and running it numerically with a free parameter is refused.",
 ["inputs", "histories", "schedules", "programs"],
 "all parametric circuits/patterns; all substitution histories and values; all placements of substitution in the pipeline; all outcome branches",
 "Tests substitute once at a fixed point of a few pipelines.",
 ["graphix/parameter.py", "graphix/transpiler.py", "graphix/pattern.py", "graphix/opengraph.py", "graphix/measurements.py", "graphix/sim/statevec.py", "graphix/sim/density_matrix.py"],
 [("affine expressions", "graphix/parameter.py"),
  ("replacement over commands and gates", "graphix/pattern.py: replace_parameter(s); graphix/transpiler.py: replace_parameter(s); graphix/opengraph.py: with_parameter(s)")],
 ["replace_parameter()", "replace_parameters()", "with_parameter(s)()", "is_parameterized()"])

prop("C13", "Composing patterns, circuits and open graphs composes their maps",
 "Composing two patterns or two open graphs, with any partial identification of the first's outputs with the second's inputs and any relabelling, yields a runnable object whose map on every outcome branch is the corresponding sequential/parallel composition, with the inputs, outputs and node mapping reported as documented and outcomes of the kept nodes traceable. Ill-formed mappings are refused.",
 ["programs", "inputs", "schedules"],
 "all pairs of patterns/open graphs; all mappings and relabellings; all outcome branches",
 "Tests compose a handful of fixed examples and compare structure or one sampled run.",
 ["graphix/pattern.py", "graphix/opengraph.py", "graphix/transpiler.py"],
 [("pattern composition", "graphix/pattern.py: Pattern.compose"),
  ("open graph composition", "graphix/opengraph.py: OpenGraph.compose"),
  ("relabelling", "graphix/pattern.py: node_mapping, reindex")],
 ["Pattern.compose()", "OpenGraph.compose()", "Circuit.extend()"])

prop("C14", "Circuit extraction inverts compilation on every outcome branch",
 "The circuit extracted from an open graph or flow computes, without any measurement, the same map the corresponding pattern computes on every measurement-outcome branch, for every supported flow and compilation strategy. Extraction either succeeds with that circuit or refuses.",
 ["programs", "schedules", "inputs"],
 "all open graphs with equal numbers of inputs and outputs (or isometries where supported) having flow; all outcome branches of the corresponding pattern",
 "Tests extract from a few random circuits and compare one sampled pattern run.",
 ["graphix/circ_ext/extraction.py", "graphix/circ_ext/compilation.py", "graphix/flow/core.py", "graphix/opengraph.py"],
 [("Pauli-exponential DAG and Clifford map", "graphix/circ_ext/extraction.py"),
  ("synthesis passes", "graphix/circ_ext/compilation.py")],
 ["OpenGraph.to_circuit()", "PauliFlow.extract_circuit().to_circuit()"])

prop("C15", "Ill-formed patterns are refused; resource metrics match the execution",
 "A pattern that uses a node before it exists or after it was measured, or an outcome before it is known, is refused before anything runs, and every pattern that is accepted runs to completion on every outcome branch. Reported resource metrics (space over time and its maximum, measured and correction counts, connectivity, node and edge sets, depth) equal what an observed execution actually uses.",
 ["histories", "programs", "schedules", "fault_sequences"],
 "all command sequences, including corrupted ones (dropped, duplicated, reordered, retargeted commands); all outcome branches",
 "Tests check a handful of malformed examples and metrics of fixed patterns.",
 ["graphix/pattern.py", "graphix/command.py", "graphix/simulator.py"],
 [("runnability check", "graphix/pattern.py: check_runnability"),
  ("space accounting", "graphix/pattern.py: max_space, space_list"),
  ("graph queries", "graphix/pattern.py: extract_graph/nodes/connected_nodes/max_degree")],
 ["Pattern.check_runnability()", "Pattern.simulate()", "Pattern.max_space()", "Pattern.space_list()"])

prop("C16", "The graph-state simulator tracks the true state through any history",
 "After any history of graph edits, local Clifford operations, Pauli measurements with any outcome choices and graph-equivalence transformations, the graph-state simulator's state equals, up to global phase, the state obtained by applying the same history to a state vector, and the outcome it reports is one that state allows. Graph-equivalence transformations leave the represented state unchanged, and exporting local operations and re-importing them reproduces the state.",
 ["histories", "schedules", "inputs"],
 "all graphs; all finite operation histories; all measurement outcome choices",
 "Tests apply one or two operations to a fixed graph.",
 ["graphix/graphsim.py", "graphix/clifford.py", "graphix/_db.py"],
 [("vertex operator and graph update rules", "graphix/graphsim.py: GraphState"),
  ("Clifford tables", "graphix/_db.py, graphix/clifford.py")],
 ["GraphState.h/s/z/measure_x/measure_y/measure_z", "GraphState.equivalent_graph_*", "GraphState.to_statevector()"],
 state=[("graph and vertex operators", "represents the stabiliser state", "graphix/graphsim.py")])

# ---- listed, not claimed (pure functions)
prop("C17", "Pauli and Clifford algebra agrees with matrices",
 "Products, inverses, decompositions and conjugations of Pauli and single-qubit Clifford operators, and their action on measurements, equal the corresponding matrix algebra up to the documented phase.",
 ["inputs"], "the finite tables of 24 Cliffords and 16 signed Paulis",
 "A finite table which the tests already enumerate in large part; no schedule, fault or history.",
 ["graphix/_db.py", "graphix/clifford.py", "graphix/pauli.py", "graphix/fundamentals.py"],
 [("tables", "graphix/_db.py")], ["Clifford and Pauli operators"])
prop("C18", "A flow is found exactly when one exists, and it is of least depth",
 "For every open graph, a causal, generalised or Pauli flow is returned exactly when one exists, that is, exactly when some order of measuring the nodes in rounds lets every unwanted outcome be corrected on nodes not yet measured. A returned flow satisfies all defining conditions of its kind, including its partial order, and needs the fewest measurement rounds any flow of that kind needs.",
 ["inputs", "schedules"], "all open graphs with planar and Pauli measurements and any inputs and outputs; all orders in which the nodes could be measured",
 "Tests use a gallery of graphs with known answers; deciding absence, or minimal depth, needs a search over all measurement schedules of every graph.",
 ["graphix/opengraph.py", "graphix/flow/_find_gpflow.py", "graphix/flow/_find_cflow.py", "graphix/_linalg.py"],
 [("generalised and Pauli flow finding over GF(2)", "graphix/flow/_find_gpflow.py"), ("causal flow finding", "graphix/flow/_find_cflow.py"), ("layering", "graphix/flow/_partial_order.py")],
 ["OpenGraph.to_causalflow/to_gflow/to_pauliflow()", "OpenGraph.extract_*flow/find_*()", "flow.partial_order_layers"])
prop("C19", "Textual renderings denote the object they render",
 "Representations of patterns, circuits, measurements and instructions evaluate back to an equal object, and the ASCII, Unicode and LaTeX renderings are injective on commands.",
 ["inputs"], "all patterns, circuits and commands",
 "Tests round-trip random circuits' repr; renderings are compared with fixed strings.",
 ["graphix/pretty_print.py", "graphix/repr_mixins.py"],
 [("rendering", "graphix/pretty_print.py")], ["repr()", "Pattern.to_ascii/unicode/latex()"])

prop("C20", "Random objects are valid whatever the random source delivers",
 "For every size, rank, option and random source, including one that delivers the ends of its range, each random generator returns a valid object of the documented kind: a Hermitian matrix, a unitary, a density matrix of the requested rank, a Gaussian matrix of the requested deviation, a trace-preserving (Pauli) channel with the requested number of operators, a normalised state vector; random circuits have the requested width and layers, entangle exactly the requested pairs in every layer, contain only enabled gates and given parameters, and run. The object is a function of the source alone, and consecutive objects drawn from one source are fresh.",
 ["inputs", "histories"], "all sizes, ranks, options and containers in the documented domain; all sequences of random draws",
 "Tests draw a few objects from one seeded source; validity at the ends of the range of the source, or for every rank and container, is never met.",
 ["graphix/random_objects.py", "graphix/channels.py"],
 [("generators", "graphix/random_objects.py")],
 ["graphix.random_objects.rand_*()"])

prop("C21", "Fusing the extracted resource states yields the requested graph state",
 "For every graph and every cluster size limits (at least three photons for GHZ, two for linear clusters), fusion network extraction ends and returns resource states that are stars or chains of the declared type within the limits, cover every node, and hold every edge exactly once. Producing them and fusing the nodes reported as shared, in any order, with any fusion outcomes, lost and re-produced fragments and repeated requests, ends with exactly one photon per node in the graph state of the requested graph, up to the Z byproducts of the outcomes. The requested graph and the clusters are left as they were, and extracting again gives the same clusters.",
 ["inputs", "schedules", "fault_sequences"],
 "all simple graphs and size limits; all fusion orders and outcomes; all failures, losses and duplications of fusions and fragments",
 "Tests extract seven small hand-made graphs without limits and never fuse the result.",
 ["graphix/extraction.py"],
 [("greedy GHZ and chain decomposition", "graphix/extraction.py: graph_to_fusion_network"),
  ("shared nodes of two clusters", "graphix/extraction.py: fusion_nodes")],
 ["graph_to_fusion_network()", "fusion_nodes()", "ResourceGraph"])

prop("C22", "Drawings show the whole object and report every failure",
 "Whatever the layout algorithm draws, whatever options are chosen and whatever was drawn before, a drawing of an open graph, flow, XZ-corrections, pattern or graph state shows every node once at a position of its own, marked as input, output or Pauli-measured, with the requested labels; every graph edge once, and every correction as one arrow of the right direction and colour; nodes of a partial order in the numbered column of their layer, in measurement order; and a legend of exactly the kinds shown. The flow drawn for a pattern is a flow of its open graph. The object and other open figures are untouched, and a figure that cannot be shown or completely saved is reported to the caller.",
 ["inputs", "histories", "fault_sequences"],
 "all objects, drawing options and layouts; all sequences of drawings; all failures of the screen and of the file being written",
 "Tests compare the images of a dozen fixed drawings, with a fixed layout and no failure.",
 ["graphix/visualization.py", "graphix/pattern.py", "graphix/opengraph.py", "graphix/flow/core.py", "graphix/graphsim.py"],
 [("positions, paths, arrows, labels and legend", "graphix/visualization.py: GraphVisualizer"),
  ("choice of the flow to draw", "graphix/pattern.py: Pattern.draw"),
  ("decorated graph", "graphix/graphsim.py: GraphState.draw")],
 ["OpenGraph.draw()", "PauliFlow.draw()", "XZCorrections.draw()", "Pattern.draw()", "GraphState.draw()"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, p["title"]
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
