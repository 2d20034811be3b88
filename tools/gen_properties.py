import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[m if isinstance(m,dict) else {"name":m,"where":files[0]} for m in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

S="src/"
# ---- network -------------------------------------------------
p("N01","Partitioning a network loses, duplicates and disconnects nothing",
"After a network has been distributed over processes, every bus and every branch that was added is owned by exactly one process with its attributes, identifiers and attached data unchanged, and each process also holds ghost copies of exactly the remote buses and branches that touch what it owns. On every process the local topology (branch endpoints, branch lists and neighbour lists of a bus, identifier-to-local-index lookups, global indices) describes that same network, with each bus and branch present once. The totals reported collectively equal the number of distinct buses and branches.",
["inputs","configurations"],"all connected bus/branch graphs (stars, meshes, chains, parallel hubs), all original numberings, all initial placements of buses and branches on processes, 1 to 4 processes",
"The existing tests partition one fixed 2-D grid (and a few raw files that only have to run); hub buses with several branches into the same remote process, irregular numbering and scattered initial placement are never checked.",
[S+"network/base_network.hpp",S+"partition/graph_partitioner_implementation.cpp",S+"partition/adjacency_list.cpp",S+"partition/parmetis/parmetis_graph_partitioner_impl.cpp"],
["BaseNetwork::partition with the GraphPartitioner destination/ghost maps","ParallelShuffler of BusData/BranchData","setGlobalIndices/neighbour rebuild after the shuffle"])
p("N02","A ghost update makes every copy equal to its owner",
"After the exchange buffers of buses (or branches) are updated, every ghost copy on every process holds exactly the bytes its owning process held when the update was called, and owned data is unchanged. This holds for every update in any sequence of writes and updates.",
["inputs","histories","configurations"],"all graphs, ownership maps, buffer sizes and write/update histories, on 1 to 4 processes",
"The tests do one update on a fixed 2-D grid with one integer payload; other distributions, payload sizes and repeated updates are not exercised.",
[S+"network/base_network.hpp"],["allocXCBus/allocXCBranch buffers","initBusUpdate/updateBuses and initBranchUpdate/updateBranches through global arrays"])
p("N03","Editing or copying a network leaves an equivalent, self-consistent network",
"Copying a distributed network onto another network reproduces the same buses, branches, ownership, indices, connectivity and data without sharing later edits of data values. Stripping ghosts leaves exactly the owned buses and branches, and partitioning again (repeatedly) restores a network with the same content. Clearing a network leaves it empty and reusable.",
["histories","inputs","configurations"],"all graphs and all sequences of partition, ghost removal, re-partition, copy and clear operations on 1 to 4 processes",
"The tests remove ghosts once on one grid and never check copies or repeated re-partitioning.",
[S+"network/base_network.hpp"],["clone<>","clean()","resetGlobalIndices()","clear()"])
# ---- parallel -------------------------------------------------
p("D01","Redistribution delivers every item once to the requested process",
"Sending items to requested destination processes delivers each item, unmodified, to exactly the destination named for it, once. Nothing is lost, duplicated or invented, whatever mix of empty, skewed and large contributions the processes make.",
["inputs","configurations"],"all item lists, item contents and destination maps (including empty and all-to-one) on 1 to 4 processes",
"The test shuffles one fixed pattern.",[S+"parallel/shuffler.hpp",S+"parallel/ga_shuffler.hpp"],["Shuffler functor with all-to-all counts and serialized payloads"])
p("D02","Distributed stores return exactly what was put in, to every process",
"A vector put in the shared store under an identifier is returned complete and unmodified to any process that asks for it after upload, and asking for an identifier never stored reports absence. A shared global vector returns, for any list of indices in any order and for the whole vector, the value contributed for each index, also after it has been reset and reloaded.",
["inputs","histories","configurations"],"all assignments of identifiers and vector lengths (including empty) to processes, all query lists, 1 to 4 processes",
"The tests store one regular pattern and read it back once.",[S+"parallel/global_store.hpp",S+"parallel/global_vector.hpp"],["addVector/upload/getVector index arithmetic over a global array","addElements/upload/reload/getData/getAllData"])
p("D03","Distributed index lookups find exactly the registered values",
"Looking up keys (or key pairs) in the distributed index returns every value registered for the key by any process, paired with the right key, and nothing for keys never registered. Registering a new set of pairs replaces the old one.",
["inputs","configurations"],"all multisets of non-negative keys/pairs and queries on 1 to 4 processes",
"The tests use one regular integer pattern.",[S+"parallel/index_hash.hpp"],["GlobalIndexHashMap addPairs/getValues"])
p("D04","Values addressed to buses and branches reach every holder of them",
"Values that any process addresses to a bus number or to a branch (the pair of bus numbers in the order the branch has) are delivered to every process holding a copy of that bus or branch, attached to the right local object, exactly once per value. Values for unknown buses or branches are dropped without disturbing the others.",
["inputs","configurations"],"all networks, ownership maps, and value lists (duplicates, unknown targets, empty contributions) on 1 to 4 processes",
"The test uses one regular grid and one value per object.",[S+"parser/hash_distr.hpp"],["HashDistribution distributeBusValues/distributeBranchValues"])
p("D05","Every task is handed out exactly once",
"Over all processes (or process groups) asking for tasks, each task number from 0 to N-1 is handed out exactly once before the manager reports that none are left, in any interleaving; setting a new task count restarts the numbering, and cancelling stops the hand-out.",
["schedules","histories","configurations"],"all task counts (including 0), process and group counts, and request interleavings (randomised delays)",
"The test counts one run with a fixed number of tasks and one work pattern.",[S+"parallel/task_manager.hpp"],["TaskManager atomic counter (read-increment) over a global array"])
p("D06","Group communication computes over exactly the members of the group",
"Dividing or splitting a set of processes yields groups that partition it as requested, and sums, maxima, minima, broadcasts of truth values and barriers over a group give the result over exactly that group's members, elementwise, for every numeric type and vector length.",
["inputs","configurations"],"all vectors, lengths, types, group sizes and colours on 1 to 4 processes (including nested division)",
"The tests only print messages from fixed groups.",[S+"parallel/communicator.hpp",S+"parallel/communicator.cpp"],["Communicator::divide/split/sum/max/min/any/all"])
p("R01","Random streams are reproducible and stay in range",
"Reseeding the generator with the same value reproduces the same sequence of uniform and normal deviates, whatever was drawn before. Uniform deviates always lie in [0,1), and their sample mean and variance, and those of the normal deviates, match the advertised distributions.",
["histories","inputs"],"all seeds and all histories of draws before reseeding",
"The test draws one stream from one seed and never reseeds.",[S+"parallel/random.hpp",S+"parallel/random.cpp"],["Random::seed/drand/grand"])
# ---- component data -------------------------------------------
p("C01","Attribute collections are faithful typed maps",
"A component's attribute collection behaves as a map from name (and optional element index) and type to value: a value added under a name is returned exactly under that name, index and type and no other, adding never overwrites, setting changes only existing entries, removed or absent entries report absence and leave the caller's variable alone. Copies are equal and independent.",
["histories","inputs"],"all sequences of add/set/get/copy over all types, names and indices",
"No test checks the collection directly; parsers use a handful of keys.",[S+"component/data_collection.hpp",S+"component/data_collection.cpp"],["DataCollection addValue/setValue/getValue, indexed keys"])
p("C02","Serialization round-trips component data exactly",
"Saving an attribute collection or a bus/branch attribute record to an archive and loading it back (locally or on another process) gives an equal object: all names, indices, types and values, including special floating point values and arbitrary strings.",
["inputs"],"all collections of all types, sizes, names and values",
"The test serializes one small fixed object.",[S+"component/data_collection.hpp",S+"component/base_component.hpp",S+"network/base_network.hpp"],["boost serialization of DataCollection/BusData/BranchData"])
p("C03","Configuration lookups return what the document says, everywhere",
"After opening an XML configuration, every typed lookup by path returns the value written in the document on every process, or the caller's default when the entry is absent or not of that type; cursors and child enumeration reflect the document's structure and order. A malformed document is reported as failure on all processes.",
["inputs","configurations"],"all XML trees (depth, repeated tags, whitespace, numeric formats) and lookup paths on 1 to 3 processes",
"The test reads a dozen values from one file.",[S+"configuration/configuration.hpp",S+"configuration/configuration.cpp"],["Configuration::open/openStringFile, get<T>, getCursor, children"])
p("S01","Text fields are split, trimmed and tagged consistently",
"Splitting a line into tokens yields exactly the fields that were written, for any mix of blanks, tabs, commas and quoted fields containing blanks; trimming removes only surrounding white space; a one- or two-character tag normalises to the same two characters however it was padded or quoted; case conversion and truth-value parsing follow their documented forms. Every line of a file, or of a list of lines held in memory, is delivered once, complete and in order.",
["inputs"],"all field lists and all ways to write them (padding, quoting, tabs)",
"The test checks a few literal strings.",[S+"utilities/string_utils.hpp",S+"parser/block_parsers/base_block_parser.cpp"],["StringUtils trim/blankTokenizer/charTokenizer/clean2Char/trimQuotes/getBool","BaseBlockParser splitPSSELine/cleanComment"])
# ---- parser ---------------------------------------------------
p("P01","A raw power-flow case is read without loss, misplacement or mix-up",
"Reading a PSS/E raw case puts every bus, load, shunt, generator, line, transformer, area and switched shunt of the file into the network exactly once, on the right bus or branch, under the right element index, with every field equal to the value written in the file. Transformers come out on the system base with their turns ratio and orientation (three windings as three branches to an added bus), and records on unknown buses are ignored. Comments, blank fields, padding, buses given by name, repeated elements on one bus or bus pair (in either direction) and the number of processes do not change this.",
["inputs","configurations"],"all well-formed cases of format versions 23, 33, 34 and 35, written with any spacing, comments and element order, on 1 to 3 processes",
"The test reads one small file and prints it; application tests only have to exit normally.",[S+"parser/PTI23_parser.hpp",S+"parser/PTI33_parser.hpp",S+"parser/PTI34_parser.hpp",S+"parser/PTI35_parser.hpp",S+"parser/base_parser.hpp",S+"parser/block_parsers/base_block_parser.cpp"],["block parsers per section","createNetwork distribution of parsed records"])
p("P02","Dynamic model records attach to the right machine, relay or load",
"Reading a dynamic-model (.dyr) or unit commitment (.uc) file, with the raw case or after partitioning, stores each record's parameters, field by field, on the machine, load or branch relay it names, on whichever process owns it, and leaves everything else untouched. Records for buses, machines or loads that do not exist are ignored, and a record may be split over lines anywhere between two values.",
["inputs","configurations"],"all sets of dynamic records over all supported generator/exciter/governor models, written on one or several lines, on 1 to 3 processes",
"Application tests read a few files and only have to run to completion.",[S+"parser/base_pti_parser.hpp",S+"parser/parser_classes"],["getDS/getDSExternal, per-model parse/extract/store classes"])
p("P03","Exporting a network and reading it back gives the same network",
"Writing a network out as a raw case and reading the result gives a network with the same buses, loads, shunts, generators, lines and transformers and the same values to the precision written, from any distribution over processes.",
["inputs","configurations"],"all networks representable in format versions 23, 33 and 34 on 1 to 3 processes, partitioned or not",
"Export is only exercised by applications whose output files are not compared.",[S+"export/PSSE33Export.hpp",S+"export/PSSE34Export.hpp",S+"export/PSSE23Export.hpp",S+"export/data_blocks"],["data block writers gathered on process 0","round trip with the raw parsers"])
# ---- mapper ---------------------------------------------------
p("M01","Assembled network matrices equal the sum of component contributions",
"The matrix assembled from a network contains exactly the blocks its buses and branches contribute, at the rows and columns belonging to those buses, and nothing else; components that contribute nothing leave no trace. The matrix is the same, up to the consistent renumbering of rows, for any distribution of the network over processes, and re-assembling or incrementing an existing matrix gives the new contributions or the sum.",
["inputs","histories","configurations"],"all graphs, block sizes (0 to 3, mixed), contribution patterns and values, ownership maps, real and complex, new/overwrite/increment histories on 1 to 4 processes",
"The tests assemble one grid with uniform pattern and check some entries.",[S+"mapper/full_map.hpp"],["FullMatrixMap offsets, mapToMatrix/mapToRealMatrix/overwriteMatrix/incrementMatrix"])
p("M02","Network vectors round-trip between components and distributed vectors",
"The vector assembled from a network holds each bus's contribution at the positions belonging to that bus, which match the rows of matrices assembled with the same block sizes, and pushing a vector back gives every bus exactly its own entries.",
["inputs","histories","configurations"],"all graphs, block sizes, ownership maps and values, real and complex, on 1 to 4 processes",
"The tests use one grid with uniform blocks.",[S+"mapper/bus_vector_map.hpp"],["BusVectorMap mapToVector/mapToRealVector/mapToBus"])
p("M03","General equations assemble to the declared rows, columns and values",
"For components that declare numbers of rows, columns and vector elements, the assembled matrix and vector contain exactly the declared values at the indices the assembler assigned; those indices form a permutation of 0..n-1 without gaps or clashes and every copy of a component sees the same indices. Pushing vector or slab values back returns to each component exactly its own entries.",
["inputs","histories","configurations"],"all graphs, row/column counts on buses and branches, sparse value patterns, ownership maps on 1 to 4 processes",
"The tests use one grid with a fixed pattern.",[S+"mapper/gen_matrix_map.hpp",S+"mapper/gen_vector_map.hpp",S+"mapper/gen_slab_map.hpp"],["GenMatrixMap, GenVectorMap, GenSlabMap offset computation and value loading"])
# ---- math -----------------------------------------------------
p("L01","Distributed vectors compute the same as plain arrays",
"Any sequence of element writes, additions, fills, scalings, vector sums, element-wise operations, norms and reads on a distributed vector gives the same values as the same sequence on an ordinary array, for real and complex values and for any distribution.",
["histories","inputs","configurations"],"all operation sequences, lengths (including processes owning nothing) and values, on 1 to 4 processes",
"The tests check each operation once on regular data.",[S+"math/vector.hpp",S+"math/petsc/petsc_vector_implementation.hpp",S+"math/petsc/petsc_vector.cpp",S+"math/complex_operators.hpp",S+"math/value_transfer.hpp"],["VectorT operations over the library vector"])
p("L02","Distributed matrices compute the same as plain dense matrices",
"Any sequence of matrix assembly, sum, scaling, diagonal changes, transpose, products with vectors and matrices, column/diagonal/row extraction, storage conversion, cloning and binary save/load gives the values the same algebra gives on ordinary dense matrices, for real and complex, sparse and dense, square and rectangular, and any distribution; source operands are unchanged.",
["histories","inputs","configurations"],"all shapes, sparsity patterns, values and operation sequences on 1 to 4 processes",
"The tests check each operation on one band or dense pattern.",[S+"math/matrix.hpp",S+"math/petsc/petsc_matrix_implementation.hpp",S+"math/petsc/petsc_matrix_operations.cpp",S+"math/petsc/petsc_matrix_wrapper.cpp",S+"math/fallback_matrix_methods.hpp"],["MatrixT operations over the library matrix"])
p("L03","Solvers return solutions that satisfy the equations",
"For every non-singular system, the linear solver returns a vector that satisfies the system to the requested tolerance, the same solver can be reused with other right-hand sides, and the matrix solver and matrix inverse do so for every column. Inputs other than the solution are unchanged.",
["inputs","histories","configurations"],"all well-conditioned systems (real, complex), solver configurations, repeated right-hand sides and updated matrices on 1 to 3 processes",
"The tests solve one or two fixed systems.",[S+"math/linear_solver_implementation.hpp",S+"math/linear_matrix_solver.hpp",S+"math/petsc/petsc_linear_solver_implementation.hpp",S+"math/petsc/petsc_linear_matrix_solver_impl.hpp",S+"math/basic_linear_matrix_solver_implementation.hpp",S+"math/small_matrix_solve.cpp"],["LinearSolverT::solve, LinearMatrixSolverT::solve"])
p("L04","Nonlinear solvers stop at a root of the supplied equations",
"When a nonlinear solver reports success, the residual of the user's equations at the returned point is below the tolerance it was configured with; for systems with a root close to the start it succeeds; it honours its iteration limit and reports failure to the caller instead of returning a non-root as a solution.",
["inputs","configurations"],"all smooth systems built with a known root, starts near it, both solver families, real and complex, 1 to 3 processes",
"The tests solve two small textbook systems.",[S+"math/newton_raphson_solver_implementation.hpp",S+"math/nonlinear_solver_implementation.hpp",S+"math/petsc/petsc_nonlinear_solver_implementation.hpp"],["NewtonRaphsonSolver iteration and tolerances","PETSc SNES wrapper"])
p("L05","The DAE integrator follows the exact trajectory and its events",
"Integrating a differential-algebraic system from an initial state to a given time gives the exact solution within the accuracy of the step used, lands on the requested end time, continues correctly over several calls, and fires each event when, and only when, its condition crosses zero in the requested direction.",
["inputs","histories","configurations"],"all stable linear DAE systems with known solutions, step sizes, segment sequences and event thresholds on 1 and 2 processes",
"The tests integrate two fixed systems.",[S+"math/dae_solver.hpp",S+"math/dae_solver_implementation.hpp",S+"math/dae_event.hpp",S+"math/petsc/petsc_dae_solver_implementation.hpp"],["DAESolver::initialize/solve/solvestep, event manager"])
# ---- applications ---------------------------------------------
p("Y01","The admittance matrix is the textbook admittance matrix",
"The bus admittance matrix built from a case equals the one given by the standard pi-model of every in-service line and transformer (tap, phase shift, charging, line shunts), plus bus shunts, summed over parallel elements in either direction; out-of-service elements contribute nothing and isolated buses decouple. Opening and closing a line returns the original matrix.",
["inputs","histories","configurations"],"all networks with parallel and reversed lines, transformers, phase shifters, shunts and statuses on 1 to 3 processes",
"Tests only run applications to completion on sample cases.",[S+"applications/components/y_matrix/ymatrix_components.cpp"],["YMBus/YMBranch admittance, matrix block methods, element status edits"])
p("F01","A converged power flow satisfies the network equations",
"When the power flow reports convergence, the voltages it returns satisfy the power balance at every load bus and the active balance and voltage set point at every generator bus to the requested tolerance, the reference bus keeps its angle and magnitude, and reported branch flows and generator outputs are those implied by these voltages. The result does not depend on the number of processes or the order of records in the case.",
["inputs","configurations"],"all feasible cases (meshed and radial, several generators and loads per bus, transformers, shunts, outages) on 1 to 3 processes",
"Tests only check that the application exits normally on sample cases.",[S+"applications/modules/powerflow/pf_app_module.cpp",S+"applications/modules/powerflow/pf_factory_module.cpp",S+"applications/components/pf_matrix/pf_components.cpp"],["PFAppModule::solve/nl_solve","PFBus/PFBranch mismatch and Jacobian"])
p("F02","Contingencies are independent and leave the base case intact",
"Applying any contingency, solving it and removing it returns the network to its base state, so that solving the base case, or any other contingency, afterwards gives the same result as on a fresh network, whatever contingencies came before. A line or generator outage gives the result of the same case with that element out of service, and the voltage and overload checks report exactly the violations at the returned voltages that are not to be ignored.",
["histories","inputs","configurations"],"all cases and all sequences of line and generator contingencies, including islanding and non-converging ones",
"Tests run one contingency list to completion without comparing results.",[S+"applications/modules/powerflow/pf_app_module.cpp",S+"applications/components/pf_matrix/pf_components.cpp",S+"applications/contingency_analysis/ca_driver.cpp"],["setContingency/unSetContingency, resetVoltages, status save/restore"])
p("F03","State estimation recovers the state from exact measurements",
"Given exact measurements of a solved network that make it observable, state estimation returns the voltages of that network; with redundant noisy measurements the weighted residual at the returned state is stationary.",
["inputs","configurations"],"all small networks and measurement sets (voltages, injections, flows, currents) with enough redundancy on 1 to 4 processes",
"The test runs one case to completion.",[S+"applications/modules/state_estimation/se_app_module.cpp",S+"applications/components/se_matrix/se_components.cpp"],["SEAppModule::solve, SEBus/SEBranch measurement functions and Jacobian"])
p("G01","Control blocks follow their transfer functions and limits",
"A control block (filter, gain, integrator, lag, lead-lag, PI, dead band, backlash, slope, piecewise slope, gate) initialised at an output stays there when its input is held, and stepped in time follows the exact response of its transfer function within discretisation error. Outputs and states never leave their configured limits and recover from them without windup beyond the limit.",
["histories","inputs"],"all stable parameter sets, limits, input signals and step sizes",
"No test exercises the blocks alone; dynamic simulation tests only have to run to completion.",[S+"applications/modules/dynamic_simulation_full_y/model_classes",S+"applications/modules/dynamic_simulation_full_y/base_classes"],["cblock/dblock discretised blocks"])
p("G02","A dynamic simulation follows its equations through every event",
"Started from a solved power flow and without disturbance, a dynamic simulation keeps every machine's speed, rotor angle and terminal voltage at its initial value. With bus faults, lines opened and closed and machines tripped and put back, at any time, the bus voltages and the angles and speeds of classical, round rotor and salient pole machines at every step are those of the predictor-corrector integration of the machine equations with the network admittances in force: an event acts in the first step not before its time, changes exactly its own element, and when it is undone the admittances return to what they were. Results do not depend on the number of processes, on the pieces the run is divided in, on the order of the events in the file or on earlier runs before a reset.",
["inputs","histories","configurations"],"all small solved cases, machine parameters in range, event schedules, time steps and divisions of the run on 1 to 6 processes",
"Tests run sample simulations to completion without comparing trajectories.",[S+"applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp",S+"applications/modules/dynamic_simulation_full_y/dsf_events.cpp",S+"applications/modules/dynamic_simulation_full_y/dsf_components.cpp",S+"applications/modules/dynamic_simulation_full_y/model_classes"],["DSFullApp setup/run/runonestep/solveNetwork/handleEvents/reset, DSFullBus/DSFullBranch admittance modes, GENCLS/GENROU/GENSAL init/predictor/corrector"])
# ---- misc ------------------------------------------------------
p("A01","Accumulated statistics equal the statistics of the data supplied",
"The table of statistics built from data columns supplied by any processes reports, for every row, the mean, deviation from mean and from base, minimum and maximum, counts and out-of-range marks of exactly the supplied data, ignoring values excluded by the mask, and written files list rows in order with their labels.",
["inputs","configurations"],"all tables, masks, bounds and distributions of columns and rows on 1 to 4 processes",
"No test covers it.",[S+"analysis/stat_block.hpp",S+"analysis/stat_block.cpp"],["StatBlock addRowLabels/addColumnValues/writeMeanAndRMS/writeMinAndMax/writeMaskValueCount"])
p("A02","Collected output lists every contributing bus and branch once, in order",
"Output gathered from a distributed network contains the record of every bus (or branch) that contributes one, exactly once, unmodified, in the same global order on every number of processes, and nothing from non-contributing or ghost copies.",
["inputs","configurations"],"all networks, ownership maps, contribution masks and record lengths up to the declared size on 1 to 4 processes",
"The test writes one grid and nobody compares the output.",[S+"serial_io/serial_io.hpp"],["SerialBusIO/SerialBranchIO write, writeStrings, gatherData"])
p("A03","Per-bus tables deliver each column value to the right element",
"A table file of bus number, device tag and columns is delivered so that every process obtains, for each local bus it holds and each selected column, the values in the file for that bus with the right tag, and headers and counts match the file.",
["inputs","configurations"],"all tables and networks (repeated buses, several tags, comments) on 1 to 3 processes",
"The test reads one regular table.",[S+"parser/bus_table.hpp"],["BusTable::readTable/getLocalIndices/getTags/getValues"])
p("A04","Network analytics and load/generation scaling count each element once",
"Collective counts of buses, branches, generators, loads and lines and totals of generation and load over areas or zones equal the figures computed from the case itself, on any number of processes. Scaling loads multiplies every in-service load of the selection, scaling generation by a fraction moves every in-service generator of it by that fraction of its distance to its upper (positive) or lower (negative) limit, later solutions are those of the scaled case, and resetting restores the original values.",
["inputs","histories","configurations"],"all cases, areas, zones and scale factors on 1 to 3 processes",
"No test compares these figures.",[S+"analysis/network_analytics.hpp",S+"applications/modules/powerflow/pf_app_module.cpp",S+"applications/components/pf_matrix/pf_components.cpp"],["NetworkAnalytics counts","scaleLoadPower/scaleGeneratorRealPower/resetPower/getTotalLoadRealPower/getGeneratorMargins"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
