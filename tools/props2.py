prop("C05", "A circuit is its list of gates on a growing list of lines",
     "After any sequence of construction calls (adding registers, gates, controls, classical registers; copying, replacing or mapping instructions; resetting; reading the circuit), a circuit holds exactly the registers, dimensions, lines and gates those calls describe, in order. Each gate keeps the lines, levels, parameters and controls it was given even if the caller later changes the lists it passed, and copies of a circuit evolve independently. A reset circuit is as good as new.",
     ["histories"], "all sequences of up to 4 (5) of 17 construction operations from three starting circuits; every live circuit compared with a reference model after each operation",
     "tests build fixed circuits in one order; aliasing between circuits, copies and caller's lists needs multi-step histories",
     ["quantum_circuit/circuit.py", "quantum_circuit/gate.py", "quantum_circuit/components/quantum_register.py"],
     [("append/replace/reset", "circuit.py"), ("registers", "components/quantum_register.py")],
     "exhaustive operation-sequence exploration of the real circuit against a reference model", "Every history in the bound is executed on the implementation in lock-step with the model; bounded depth.")

prop("C06", "Malformed requests are refused and leave the circuit as it was",
     "A gate or register request with a line outside the circuit, repeated target lines, levels outside the qudit's dimension, equal levels, an angle outside its range, parameters or matrices of the wrong kind or size, a list that is not a permutation, overlapping, repeated or incomplete controls, or a register name already taken is refused with an error, at the call or at the latest when the gate is first used. It never runs as some other gate, and a request refused at the call leaves the circuit unchanged. Every well-formed request is accepted.",
     ["inputs"], "every boundary value of every argument of every gate and register call, over register shapes of 1..3 lines, after two histories",
     "tests check a few error messages; the boundary values form a product over gates, dimensions and argument positions",
     ["quantum_circuit/circuit.py", "quantum_circuit/gate.py", "quantum_circuit/gates/", "quantum_circuit/components/extensions/controls.py"],
     [("validate_parameter", "quantum_circuit/gates/*.py"), ("line checks", "quantum_circuit/circuit.py")],
     "exhaustive boundary-grid enumeration on the real code with an independent legality oracle", "All requests of the grid are executed. The grid holds each argument's boundary values, not all values.")

prop("C08", "Layout and comments never change what a QASM program means",
     "Reading a QASM program gives the registers, dimensions and gates its statements say, in order, whatever the layout: blank lines, indentation, spacing, line and block comments (also containing code), several statements on a line, line ends, headers, classical registers, barriers and measurements. Parameter expressions evaluate to their arithmetic value. A statement that is unknown, conditional or malformed is refused, never dropped or read as something else.",
     ["programs"], "all placements of up to 2 (3) of 24 layout elements in 5 base programs, all parameter expressions of a grammar up to 2 (3) operators, all single-statement corruptions",
     "tests parse a few fixed programs in one layout",
     ["quantum_circuit/qasm.py", "quantum_circuit/circuit.py"], [("parser", "qasm.py"), ("from_qasm", "circuit.py")],
     "exhaustive enumeration of layouts, expressions and corruptions on the real parser", "All texts in the bound are parsed and compared gate by gate with the intended program.")

prop("C09", "Logical compilation of single-qudit gates keeps the circuit's operator",
     "Compiling with a logical single-qudit pass replaces each single-qudit gate by a sequence whose operator equals that gate's (adjoints included) up to a global phase, leaves all other gates as and where they were, and neither changes the given circuit nor the backend's placement nor what later compilations on the same backend give.",
     ["inputs", "histories"], "all gates of a menu on every connected level graph, circuits of 2 (3) gates and histories of 2 (3) compilations on one backend",
     "tests decompose one or two gates on one level graph and count instructions",
     ["compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py", "compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py"],
     [("LogLocQRPass", "log_local_qr_decomp.py"), ("LogLocAdaPass", "log_local_adaptive_decomp.py")],
     "exhaustive enumeration of gates, level graphs and compilation histories on the real passes", "All inputs of the bound are compiled and the emitted operator is compared with an independent reference.")

prop("C10", "Physical compilation of local gates is exact and uses existing transitions only",
     "For any connected level graph and placement of logical on physical levels, a physical single-qudit pass turns each gate into pulses only on transitions the device has and virtual phases. Their operator, with the placement before and after and the phases left pending, equals the gate up to a global phase. This stays so along any sequence of gates compiled on the same device, and the device's transitions never change.",
     ["inputs", "histories"], "all connected level graphs with 2..4 levels x placements x gates; all gate sequences up to 3 (4) with every phase-propagation choice",
     "tests use one graph and one or two gates and never multiply the emitted pulses together",
     ["compiler/onedit/mapping_aware_transpilation/", "compiler/onedit/local_operation_swap/", "core/level_graph.py"],
     [("PhyLocQRPass", "phy_local_qr_decomp.py"), ("PhyLocAdaPass", "phy_local_adaptive_decomp.py"), ("routing", "local_operation_swap/swap_routine.py")],
     "exhaustive enumeration of device graphs, placements and gate sequences on the real passes", "Every combination in the bound is compiled on the implementation and multiplied out.")

prop("C11", "Entangling compilation replaces two-qudit gates by equivalent CEx sequences",
     "An entangling pass replaces every two-qudit gate (any targets in either order, neighbouring or distant lines, mixed dimensions, adjoint, one control on a single-qudit gate) by local gates and controlled-exchange gates on the same two lines whose operator equals the gate's up to a global phase, or refuses it. In the physical pass levels stand at their physical places. All other gates stay as and where they were.",
     ["inputs", "programs"], "all two-qudit gates of a menu over dimension pairs up to 4 (5), line pairs, placements, circuits of 2 (3) gates",
     "tests compile a single random gate on one dimension pair",
     ["compiler/twodit/entanglement_qr/", "compiler/twodit/blocks/"],
     [("EntangledQRCEX", "log_ent_qr_cex_decomp.py"), ("PhyEntQRCEXPass", "phy_ent_qr_cex_decomp.py"), ("blocks", "twodit/blocks/*.py")],
     "exhaustive enumeration of gates, line pairs and placements on the real passes", "Every input of the bound is compiled and multiplied out; the menu samples continuous angles at fixed values.")

prop("C12", "A compiled circuit means what the circuit meant, whatever was compiled before",
     "Compiling a circuit for a shipped backend at any optimisation level, or with a list of passes, gives a circuit whose operator equals the original's between the initial and the reported final placement, up to a global phase. Outcome probabilities and amplitudes read back through the reported placement are those of the original. The given circuit is unchanged, and the result does not depend on what was compiled, or refused, on that backend before.",
     ["programs", "histories"], "all circuits of up to 2 (3) gates from a menu x backends x levels; all histories of 3 (4) compilations including refused ones",
     "tests compile one random circuit per level; placements, pending phases and backend state show up in combinations",
     ["compiler/dit_compiler.py", "core/lanes.py", "core/level_graph.py", "visualisation/plot_information.py", "simulation/backends/fake_backends/"],
     [("QuditCompiler.compile_O0/O1/O2", "dit_compiler.py"), ("remap_result", "plot_information.py")],
     "exhaustive enumeration of circuits and compilation histories on the real compiler", "All programs and histories of the bound run on the implementation against the reference operator.")

prop("C13", "Merging runs of local gates keeps the circuit's operator",
     "Local resynthesis replaces every run of single-qudit gates on a line (a run ends at a gate that also touches another line) by a single gate, keeps all other gates in each line's order, and the circuit's operator stays exactly the same, also when the same gate object is applied several times. The given circuit is not changed. A circuit it cannot handle is refused.",
     ["programs"], "all circuits of up to 4 (5) instructions from a 13-entry menu, including repeated gate objects",
     "tests resynthesise one fixed circuit", ["compiler/naive_local_resynth/local_resynth.py", "core/lanes.py"],
     [("NaiveLocResynthOptPass.transpile", "local_resynth.py"), ("Lanes", "core/lanes.py")],
     "exhaustive enumeration of circuits on the real pass against reference operators", "All circuits of the bound are run through the implementation; the menu samples gates.")

prop("C14", "Moving or removing virtual phases does not change what is measured",
     "Propagating virtual phases to either end of a run of rotations keeps the circuit's operator up to a global phase, leaves all other gates in place, and handles adjoint and controlled gates. Removing phases at the beginning and end of a circuit keeps every outcome probability of a run from the ground state. No given circuit is modified, and the two passes can be combined.",
     ["programs"], "all circuits of up to 4 (5) instructions from a 13..16-entry menu in both directions and combined",
     "tests check one fixed gate list each", ["compiler/onedit/local_phases_transpilation/"],
     [("ZPropagationOptPass", "propagate_virtrz.py"), ("ZRemovalOptPass", "remove_phase_rotations.py")],
     "exhaustive enumeration of circuits on the real passes against reference operators and distributions", "All circuits of the bound are executed; the menu samples angles.")

prop("C15", "The per-line view of a circuit is faithful and rebuilds an equivalent circuit",
     "For any circuit, the lanes show for every line exactly the gates touching it, in order, grouped into maximal runs of local gates. 'Next is local' is true only if every use of that gate is followed by a local gate on its line. The instructions rebuilt from the lanes keep every line's order, and after replacing runs of local gates by other gates in any lanes the rebuilt circuit is the original with exactly those runs replaced.",
     ["programs", "histories"], "all circuits of up to 5 (6) instructions on three lines, all replacements, all pairs of replacements",
     "tests look at three hand-written circuits", ["core/lanes.py"], [("Lanes", "core/lanes.py")],
     "exhaustive enumeration of circuits and edit histories on the real class against a reference model", "Everything in the bound is executed on the implementation.")

prop("C16", "Moving logical levels on a level graph never changes the device",
     "Whatever sequence of level swaps, phase updates and phase exchanges is applied to a level graph, each logical level's placement, role and stored phase follow it, the device's physical transitions and their sensitivities stay, distances and costs agree with them, the stored phases are emitted at the right physical levels, and graphs handed out before stay as they were. Routing two levels together uses only existing transitions and moves the levels as the new placement says.",
     ["histories", "inputs"], "all connected graphs on 2..4 levels x placements, all histories of 2..3 (3..4) operations, all routes",
     "tests perform single swaps on one graph", ["core/level_graph.py", "compiler/onedit/local_operation_swap/swap_routine.py"],
     [("LevelGraph.swap_nodes", "core/level_graph.py"), ("route_states2rotate_basic", "swap_routine.py")],
     "explicit-state exploration of level-graph histories with the real class in lock-step", "Every history of the bound runs on the implementation and a reference model.")

prop("C17", "The decomposition tree returns the cheapest finished decomposition",
     "However a decomposition tree is built up, lookups find exactly the nodes added with their data, sizes and depths count them, and the retrieved decomposition is the path to a finished leaf of minimal cost below the given node, with that leaf's cost and graph, or nothing when no leaf is finished. Asking questions in between does not change later answers, and an addition below a missing parent is refused without effect.",
     ["histories"], "all trees of up to 5 (6) nodes x costs x finished sets", "tests build one small tree", ["core/dfs_tree.py"],
     [("NAryTree", "core/dfs_tree.py")],
     "exhaustive enumeration of trees and query histories on the real class against brute force", "All trees of the bound are built and queried on the implementation.")

prop("C18", "Setting an initial state prepares exactly that state",
     "For any state vector on any register, the circuit produced by set_initial_state, run from the ground state, ends in that state up to a global phase: zero amplitudes, equal branches and arbitrary relative phases included. Gates added afterwards act on it. The given vector is not modified, and a vector whose length does not fit the register is refused.",
     ["inputs"], "all vectors over an alphabet of 2..6 amplitudes on registers of up to 12 basis states",
     "tests prepare a few named and random states, which have no empty or equal branches",
     ["compiler/state_compilation/state_preparation.py", "core/micro_dd.py", "quantum_circuit/circuit.py"],
     [("StatePrep", "state_preparation.py"), ("decision diagram", "core/micro_dd.py")],
     "exhaustive enumeration of state vectors on the real compiler", "All vectors of the alphabet are prepared and simulated by an independent reference; the alphabet samples amplitudes.")

prop("C19", "Approximate state preparation keeps at least 99 percent fidelity",
     "Approximate preparation of any state yields a state with fidelity at least 0.99 to the requested one. It only drops small parts: the prepared amplitudes are the requested ones, rescaled, with some set to zero. A state without any part below one percent is prepared exactly.",
     ["inputs"], "all vectors over an alphabet of 2..7 large and small amplitudes on registers of up to 9 (12) basis states",
     "the test approximates random states, where nothing is dropped or many parts are equally small",
     ["compiler/state_compilation/state_preparation.py", "core/micro_dd.py"], [("cut_branches", "core/micro_dd.py"), ("normalize_all", "core/micro_dd.py")],
     "exhaustive enumeration of state vectors on the real compiler", "All vectors of the alphabet are prepared and simulated by an independent reference.")

prop("C20", "The named states are the states their names say",
     "On any register shape, the GHZ state is the uniform superposition of the constant strings, the qudit W state that of all single excitations, and the embedded W state that of all single excitations to level one. Each can be prepared, and the basis states are listed in register order. An unknown name is refused. The normalisation test accepts unit vectors and rejects others.",
     ["inputs"], "all register shapes up to 4 (5) lines of 2..4 levels", "tests check the names on one register of two lines",
     ["compiler/state_compilation/retrieve_state.py"], [("generate_uniform_state", "retrieve_state.py")],
     "exhaustive enumeration of register shapes on the real functions against definitions", "Every shape of the bound is computed; finite bound on shapes.")

prop("C21", "A noise model holds exactly the noise declared for each gate and mode",
     "After any sequence of declarations, the noise of a gate in a mode is exactly what was declared for it. Adding noise for one gate never changes another gate's noise or the noise object the caller passed. A subspace noise holds each pair of distinct levels at most once; dynamic (unassigned) noise never mixes with others; mathematical noise is declared once per gate and mode. A refused declaration changes nothing.",
     ["histories"], "all sequences of 2..3 (4) declarations from 24..120 on a noise model; all sequences of 3 (4) operations on a subspace noise",
     "tests declare each noise once; sharing between gates shows only when a later declaration extends one of them",
     ["simulation/noise_tools/noise.py"], [("NoiseModel._add_quantum_error", "noise.py"), ("SubspaceNoise.add_noise(s)", "noise.py")],
     "exhaustive operation-sequence exploration of the real classes against a reference model", "Every history of the bound runs on the implementation.")

prop("C22", "Sampled noisy circuits average to the declared noise channel",
     "A circuit sampled for a noise model holds the original gates in order, unchanged, each followed by noise on the lines its mode names: its own lines, all lines, its target lines or its control. Averaged over all random outcomes with their probabilities it is the declared channel: full depolarizing noise per line, or depolarizing noise within each level pair plus phase flips of the other levels; dynamic noise uses the levels of the rotation. Noise that cannot apply to a gate or dimension is refused. Neither circuit nor noise model is changed.",
     ["inputs", "schedules"], "all outcomes of sampling for every gate of a menu x 9 noises x 5 modes, pairs of rules and gates, registers of 1..3 lines",
     "tests sample a circuit once and look at gate names; probabilities and affected lines are not looked at",
     ["simulation/noise_tools/noisy_circuit_factory.py", "quantum_circuit/gates/noise_x.py", "quantum_circuit/gates/noise_y.py"],
     [("NoisyCircuitFactory.generate_circuit", "noisy_circuit_factory.py")],
     "exhaustive enumeration of all random outcomes of the real sampler (probabilistic state-space exploration)", "All outcomes are executed on the implementation and weighed; the averaged superoperator is compared with an analytic one.")

prop("C23", "Shots of a noisy run are independent samples of the noisy circuit",
     "A noisy run returns one result per shot, in order. Each shot is a sample of measuring the noisy circuit in the register's basis, and no two shots share random numbers, however the shots are spread over worker processes and however the clock advances. Results are saved, in order, exactly when memory or full states are requested with a path and a file name.",
     ["schedules", "inputs"], "all assignments of up to 8 (12) chunks of shots to 1..3 (4) forked workers x all clock patterns of 4 (6) ticks; all outcomes of single shots; all combinations of saving options",
     "tests run shots once; copies of one random stream in many workers still look random",
     ["simulation/backends/stochastic_sim.py", "simulation/noise_tools/noisy_circuit_factory.py", "simulation/save_info.py"],
     [("stochastic_simulation", "stochastic_sim.py"), ("save_shots/save_full_states", "save_info.py")],
     "stateless exploration of all worker schedules and clock patterns with controlled forked workers; enumeration of random outcomes", "Every schedule of the bound is executed with real forked workers.")

prop("C24", "Waiting for a job ends when the job has ended, and job ids are unique",
     "Waiting for a job returns at the first query that finds it done, failed or cancelled, after calling the callback once per earlier query. With a timeout it ends with a timeout error at the first query that finds the job unfinished after that time. Final-state tests agree with each other. Every job has its own id, also when several are created in the same millisecond.",
     ["histories", "schedules"], "all status sequences up to length 5 (7) x 6 timeouts x 3 intervals x callback durations under a virtual clock; all clock patterns over 5 (8) jobs",
     "the existing tests never wait for a job", ["simulation/jobs/job.py", "simulation/jobs/jobstatus.py"],
     [("Job.wait_for_final_state", "job.py"), ("JobStatus", "jobstatus.py")],
     "exhaustive enumeration of status histories and clock schedules on the real class", "All histories of the bound run on the implementation under a virtual clock.")

prop("C25", "Each run uses the options in force for its own backend",
     "A run uses the options it is given and otherwise those of its backend: set at construction, by set_options or by earlier runs, else the defaults (for the simulated machines: their own noise model). Unknown options are refused by set_options without any change. A noisy run gives as many results as shots and needs at least 50; a noiseless one gives none. Backends never share options. The provider returns the backend a name identifies and refuses names that match none or several.",
     ["histories"], "all histories of 2 operations from 26 (3 from 16; thorough 3 and 4) on two backends of one provider, 5 constructions, 4 (6) backend kinds; all substrings of names",
     "tests run a new backend once", ["simulation/backends/backendv2.py", "simulation/backends/tnsim.py", "simulation/backends/misim.py", "simulation/backends/fake_backends/", "simulation/qudit_provider.py"],
     [("set_options", "backendv2.py"), ("run", "tnsim.py, misim.py"), ("get_backend", "qudit_provider.py")],
     "exhaustive operation-sequence exploration of the real backends against a reference model", "Every history of the bound runs on the implementation.")

prop("C26", "Results are labelled, counted and reduced for the state they belong to",
     "The histogram of a state or of measured outcomes shows, under a distinct label naming the levels of each basis state, that state's amplitude or count, for any dimensions. On a circuit with a placement of levels, results are shown on the logical levels. The density matrix from counts is the diagonal of relative frequencies. The partial trace over any subset of lines is the reduced matrix.",
     ["inputs"], "all shapes up to 24 (169) states incl. more than ten levels, all outcome lists up to 4, all placements of small registers, all subsets of lines",
     "these functions have no tests", ["visualisation/plot_information.py", "visualisation/mini_quantum_information.py"],
     [("plot_state/plot_counts/state_labels/remap_result", "plot_information.py"), ("partial_trace, get_density_matrix_from_counts", "mini_quantum_information.py")],
     "exhaustive enumeration of registers, outcome lists and placements on the real functions", "All inputs of the bound are executed.")

prop("C27", "Variational compilation realises its target within the tolerance or refuses",
     "A circuit returned by variational compilation acts on the lines of its target gate and equals the target within the tolerance, up to a global phase; it uses the fewest layers for which a search reached the tolerance. The ansatz the optimiser judges is the operator of the gates finally emitted. When no search reaches the tolerance, runs out of time or fails, compilation refuses in finite time. A compilation is not affected by earlier ones or by a late timer.",
     ["schedules", "inputs", "histories"], "all scripts (hit, miss, timeout, crash) of the optimiser per layer count up to limit 3 (4) x late timer x 3 ansatz kinds x 8 layouts; all pairs (triples) of 10 compilations",
     "tests run one target whose search succeeds; failing and late searches never occur in them",
     ["compiler/twodit/variational_twodit_compilation/"],
     [("layer search and threads", "ansatz/ansatz_solve_n_search.py"), ("solve_anneal, objectives", "opt/optimizer.py"), ("variational_compile", "layered_compilation.py"), ("ansatz", "ansatz/ansatz_gen.py, ansatz/instantiate.py")],
     "stateless exploration of all optimiser and timer schedules on the real compiler with a scripted environment", "Every script of the bound is executed on the implementation; the numeric quality of the optimiser itself is not judged.")

prop("C28", "Parametrised unitaries, embeddings and sparsification are what circuits do",
     "The parametrised local unitary is unitary for every parameter vector and its parametrisation covers the whole special unitary group of its dimension. Parameters are split among lines without loss. Embedding a gate in a register gives the operator of the gate on its lines, for every dimension and line order. Sparsification returns a circuit that acts on the gate's lines and equals the gate up to local rotations, with the sparsity the minimiser reported.",
     ["inputs"], "1-3 (4) lines of dims 2-4; parameter grids of 3-4 values; 8 layouts x 3 matrices x 2 scripted minimisers",
     "tests use dimension two or three with one parameter vector",
     ["compiler/twodit/variational_twodit_compilation/", "compiler/compilation_minitools/"],
     [("generic_sud", "parametrize.py"), ("apply_gate_to_tlines", "ansatz/ansatz_gen_utils.py"), ("sparsify", "sparsifier.py")],
     "exhaustive enumeration of layouts, gates and parameter grids on the real functions against an independent reference", "All grid points and layouts of the bound are executed; coverage of the group is decided by rank and reachability at grid points.")

prop("C29", "The built-in verifiers and reference simulators give the right answer",
     "The unitary verifier accepts exactly when the sequence followed by the target (its inverse) is the identity up to a global phase and the given initial and final level maps; asking twice gives the same answer. The reference simulators compute the circuit's operator and state. Fidelities have their textbook values, are symmetric, and refuse different shapes. The angle helpers return the same angle modulo the gate's period, and the costs of angles do not depend on their sign.",
     ["inputs"], "all sequences of up to 2 (3) gates from 7 with all pairs of level maps on dims 2-3 (4); angle grid of step pi/24 (pi/96) over +-10 pi; finite families of states and operators",
     "tests give the verifier correct sequences only; wrong ones would have to be enumerated",
     ["compiler/compilation_minitools/", "compiler/twodit/variational_twodit_compilation/opt/distance_measures.py"],
     [("UnitaryVerifier", "naive_unitary_verifier.py"), ("mini_sim, mini_unitary_sim, phy_sdit_sim", "naive_unitary_verifier.py"), ("fidelities", "opt/distance_measures.py"), ("angle helpers", "local_compilation_minitools.py")],
     "exhaustive enumeration of gate sequences and maps on the real verifiers against an independent reference", "Every sequence of the bound is judged both by the implementation and by the reference.")

prop("C30", "Every decision-diagram operation is exact, whatever was computed before",
     "Building gates (with any controls and control levels, on any register), applying, adding, multiplying, transposing, conjugating, the tensor product and the inner product of decision diagrams give the exact matrix or vector, and reading a single entry or the whole object gives its values. Results do not depend on what the package has computed or cached before, and earlier results keep their values.",
     ["histories", "inputs"], "all sequences of 3 (4) operations from 17 on a fresh package and of 3 on one that keeps all earlier results, on 5 (9) registers of 1-4 qudits; all gates with up to 2 controls",
     "the package is only run through whole circuits from Python; caches and rare operations are not looked at",
     ["include/dd/"],
     [("add2, multiply2, transpose, conjugateTranspose, kronecker2, innerProduct, makeGateDD", "MDDPackage.hpp")],
     "explicit-state exploration of operation histories on the real C++ package in lock-step with a dense reference", "Every history of the bound is executed on the compiled package.")

prop("C31", "Noisy shots of the decision-diagram simulator draw the declared errors",
     "In a noisy shot on the decision-diagram simulator, every gate with declared mathematical noise is followed, independently and with the declared probabilities, by a shift error (depolarizing) and a phase error (dephasing) on all lines its mode names: own lines incl. controls, all lines, the target or the control. The errors are X and Z, for two-level rotations the pi rotations of their levels. Averaged over all outcomes the result is that channel. Noise that cannot apply is refused, and every shot has its own seed.",
     ["schedules", "inputs"], "all outcomes of the random engine for every gate of a menu x 5 modes x 6 probability pairs, pairs of modes, sequences of gates, on registers of 1..3 (4) lines of dims 2..4 (7)",
     "tests run fifty shots and look at nothing but their number",
     ["src/python/bindings.cpp"], [("generateCircuit", "src/python/bindings.cpp"), ("parse_noise_model", "src/python/bindings.cpp")],
     "exhaustive enumeration of all random outcomes of the real C++ sampler with a scripted engine", "All outcomes are executed on the compiled simulator; random numbers are discretised exactly for the probabilities used.")
prop("C32", "Histograms and drawings show the data they are given",
     "Every histogram shown or saved, one after the other in any order, contains exactly the data of its own call: one bar per basis state with its label and value, the error bars of that state, and its titles, brought back through the circuit's placement of levels where there is one. The given data is not modified, and saving writes an image. The text drawing of a circuit has one row per line with one symbol per gate, naming levels and angles of local rotations.",
     ["inputs", "histories"], "all sequences of 2 (3) of 8 plotting calls on 6 registers under every placement of one line; all sequences of 3 (4) of 7 gates drawn",
     "tests never look at a figure", ["src/mqt/qudits/visualisation/plot_information.py", "src/mqt/qudits/visualisation/drawing_routines.py"],
     [("HistogramWithErrors", "plot_information.py"), ("plot_state", "plot_information.py"), ("plot_counts", "plot_information.py"), ("draw_qudit_local", "drawing_routines.py")],
     "bounded exhaustive enumeration of call sequences on the real code, figures inspected when shown", "matplotlib's rendering is trusted; figures are inspected through their artists.")
