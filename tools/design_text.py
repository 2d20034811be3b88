TEXT = {
'N01': """Generated: connected graphs (trees, rings, stars, hubs, meshes, parallel branches), arbitrary non-contiguous bus numbers, arbitrary initial placement of buses and branches on the processes, typed attributes on every component. `partition()` is called one to three times. Oracle: the edge list itself – every process gathers what all processes own, compares it as a multiset with what was added (attributes, data, indices), derives the ghosts it must hold from the ownership and checks endpoints, neighbour lists, index maps and totals against them.""",
'N02': """Generated: a partitioned network, exchange buffers for buses and/or branches of several sizes, a random history of owner writes, ghost scribbles and updates (bus or branch, also after reallocation). Oracle: a replicated array of what every owner last wrote; after each update every copy must hold it, byte for byte, and owned buffers must be unchanged.""",
'N03': """Generated: histories of partition, clean, clone, clear/re-add and edits of the data of one of two networks. Oracle: the same full structural check as N01 after every step, run on the original and the copy; after an edit only the edited network may differ.""",
'D01': """Generated: per-process item lists (int, string, structures; empty, skewed, large), random destinations, both shufflers, repeated rounds. Oracle: the multiset of (item, destination) pairs computed from the choices.""",
'D02': """Generated: which identifiers/indices exist, who contributes them, sizes including empty, reset/reload rounds (also resets replaced before they are loaded), reads in any order with random delays. Oracle: a replicated map.""",
'D03': """Generated: key/value pairs and pair keys registered by any processes (duplicates, empty processes, re-registration), lookups with repeated and absent keys. Oracle: a multimap.""",
'D04': """Generated: distributed networks (as N01, also hand-placed owners), values addressed to bus numbers and to pairs from any process, unknown numbers mixed in. Oracle: for every process the list of (local index, value) derived from the copies it holds, compared as multisets. Values of a pair are looked up with both ends in the stored order.""",
'D05': """Generated: task counts, per-process delays (so that interleavings differ), groups asking together or processes asking alone, cancels, new counts. Oracle: exact cover of 0..N-1 until none is left; nothing after a cancel. Schedules are only perturbed by delays, not enumerated: this part is sampling of interleavings.""",
'D06': """Generated: divide/split of nested groups and every reduction for every numeric type and length 0..50 with values exact in floating point. Oracle: the same reduction over the values of the members, computed locally from the choices.""",
'R01': """Generated: seeds and mixes of uniform/normal draws before a reseed. Oracle: equality of replayed sequences, the range, and sample moments with bounds of more than 7 standard errors.""",
'C01': """Model-based: random sequences of add/set/get/copy over names, indices and types against a map keyed by (type, name, index).""",
'C02': """Generated: collections, components and bus/branch records with extreme doubles and arbitrary strings; round trips through text/binary/MPI archives. Oracle: equality field by field, bitwise for floating point.""",
'C03': """Generated: XML documents from a tree (plus comments, blank text, damage), lookups by paths of every type through cursors and child lists. Oracle: the tree. Damaged documents (truncated, missing) must be rejected on all processes alike.""",
'P01': """Generated: whole raw cases of versions 23, 33, 34 and 35 by a writer that keeps, beside every line, what the format says it means (1,000 to 3,000 fields a case): any order, spacing, separators, comments, blank and missing trailing fields, quoted identifiers in all paddings, buses by number, negative number or name, parallel and reversed elements, records on unknown buses, two- and three-winding transformers with all unit codes CW/CZ 1 and 2, areas, switched shunts, multi-section lines, correction tables, unread sections; given as file or as vector of strings. Oracle: the attributes written, before and after partition(), on every copy; also that nothing else is set at the next index. Not generated (format details the parsers do not claim): CZ=3, CM=2, commas inside quotes, blank identifiers, missing sections.""",
'P02': """Generated: raw cases as in P01 plus dynamic-model records of 30 models (tables of field names and columns derived from the documentation of the dictionary, not from the readers) on existing and absent buses, machines and loads, in any order, split anywhere between two values, with comments, blank lines, CR line ends, missing trailing fields, repeated records; read with the case (`parse(file, dyr)`), or afterwards on the distributed network (`externalParse`), and .uc files. Oracle: the attributes written, on the owner of every component, and that no other dynamic attribute is set. Not checked: the network expansion of CMLDBLU1, DISTR1 records naming a branch from its other end, order of repeated records of one machine in the distributed mode, records naming the star bus of a three-winding transformer.""",
'F01': """Generated (`harness/h_pf.cpp`, `harness/pfapp.hpp`): cases of the Y01 generator (up to 20 buses; several loads, generators and shunts per bus, generators and loads out of service, parallel, reversed and open elements, transformers, isolated buses with and without branches, one case in six stressed until it has no solution) written as raw files in random record order and run through the real `PFAppModule` on 1-4 processes and sub-communicators: `solve`, `solve` with reactive limits, `nl_solve` with the Newton-Raphson solver and with PETSc's SNES, four linear solver settings, tolerances 1e-4 to 1e-8, iteration limits 15 to 50, solving again from the solution, saving to the data collections and over the original data.
Oracle: an independent dense Newton method over the model of the case. Whenever the application reports convergence, the voltages read from the buses (every copy must agree) have to satisfy the balance with the model's own admittance matrix, hold all set points and the reference angle; if Newton's method is well behaved on the case the application must converge, and to that solution within the tolerance times the norm of the inverse Jacobian. With reactive limits the reference repeats the rule (generators over a limit are held there, solve again); cases within the tolerance of a limit are not compared. All reports (generator outputs, voltages, branch flows, performance index and overload flags) and the saved results are recomputed from the returned voltages, and all processes must report the same outcome. Cases on any number of processes and any record order are held to the same reference, which decides independence of both.
Limitations: the split of a bus's output over generators without capacity is not specified and only its sum is checked; SNES is run with full steps (a line search may stop early); the linear solver is configured accurately (with its default absolute tolerance of 1e-6 a power flow to 1e-6 can stall, which is a choice of the user); loads are constant power (documented simplification).""",
'F02': """Stateful: a case of the Y01 generator is read once by the real `PFAppModule` (1-4 processes, sub-communicators, Newton or linearised iteration, with and without reactive limits), then a history of up to four contingencies (lines or generators, one to four elements each, repeated elements, elements already out of service, unknown buses, lines and machines, islanding, losing every generator of a bus) is set, solved and unset, with the base case solved before, between (at random) and after them, and voltage and overload violations checked (all, one area, given lines, rating A or B, with violations of the base case ignored or the ignoring lifted again). Oracle: for every step a *fresh* problem with the outage written into it is solved by the independent Newton method of F01; the application must find the elements, converge if that does, to the same voltages, generator outputs and flows, and report and record exactly the violations implied by its voltages; all processes must agree.
Limitations: cases in which a step has no easy solution use a linear solver that reports failure, since the default factorisation package crashes on singular matrices; nested contingencies are not promised by the code; if the reference bus loses every generator the split of its output is unspecified (voltages are still compared); isolated buses are left out of the voltage violations; a line whose two ends disagree about being overloaded may or may not be listed. The driver executable's own loop (`ca_driver.cpp`) is repeated in the harness, not run.""",
'A01': """Generated: tables of 1 to 320 rows and 2 to 230 columns (below and above the block sizes of the code), values with and without cancellation, masks from none to almost everything, also on the base column, columns added by any process, in any order, some twice and some never, labels of buses or branches and bounds from any process, then a history of the four reports with all their options. Oracle: the statistics of the declared values, computed in the harness and compared with every field of every line of the files (8 printed digits; the deviation with a bound for cancellation). The deviation from the base is taken as the manual has it: over the columns after the first, divided by the number of unmasked values less one.""",
'A02': """Stateful: networks with any distribution and any global numbering, components that write texts of any length up to the full width or nothing, for two kinds of signal and none; a history of write (captured standard output), headers, strings, gathered records, opening and closing a file shared by the bus and the branch stream, and re-creation. Oracle: the texts of the active components in the order of the global index, on the first process only, every byte compared.""",
'P03': """Generated: the raw cases of P01 (versions 33, 34 and 23; parallel and reversed elements, two and three winding transformers in all unit conventions, truncated records), read on (sub-)groups of 1 to 3 processes, partitioned or not, exported in their own version or (33 and 34) in the other one, and read back into a second network. Oracle: round trip. Every bus, load, shunt, generator, switched shunt, area, line and transformer of both networks is listed with its fields, gathered on one process and matched by number, identifier and direction; fields of the first network must come back to the six decimals written (impedances with the precision that their base and turns ratio leave), nothing may be lost and nothing may appear. A field the writer leaves out counts with the default of the format. Not covered because the format blocks are written empty by design: DC lines, impedance tables, multi-section lines, zones, owners, FACTS; names of transformers, vector groups and emergency voltage limits are written with their defaults. There is no writer for version 35.""",
'G01': """Generated: blocks (filter, integrator, lag, lead-lag, PI, gain with limits, rate limiter, slope, piecewise slope, dead band, gates, backlash, dead bands with full, bow-tie and partial hysteresis, and the older lag, lead-lag and PI blocks of the exciters and governors) with random stable parameters, limits on state, rate and output, start values, step sizes and input signals (steps, ramps, sines, held, random), driven the way the models drive them (predictor and corrector). Oracle: initialised at an output the block stays there while its input is held; every stage equals the documented formulas with their limits; without limits the output follows the exact exponential response within the error bound of the method for that step size; outputs and states never leave their limits, and come off a limit as soon as the rate points inside; curves are evaluated and inverted by interpolation; backlash and bands follow the play operator and their documented hysteresis. The blocks written for this version have no PID and washout is the filter with a derivative term; `GainBlockClass` is an empty stub and the `Filter(K,T)` constructors are declared only.""",
'F03': """Generated (`harness/h_se.cpp`): cases of the Y01 generator (outages, parallel, reversed and open elements, transformers, line charging, bus and line shunts, isolated buses), a state, and a set of measurements of every type (VM, VA, PI, QI, PIJ, QIJ, IIJ, PJI, QJI, IJI) with their deviations in random order, including repeated ones, ones on elements out of service, against the direction of their branch, of unknown elements or tags; exact ones or ones with noise; networks read by the module, given by the caller, or copied from a power flow; several communicators, sub-groups, 1-4 processes. Oracle: a dense Gauss-Newton reference in double precision computes the measurement functions from the elements of the case. With exact observable measurements the module must return the state; with noise it must return the point at which the weighted residual is stationary (the reference iteration is started from the result and may not move). The stored voltages and the rows of the written report (given value, estimate, residual) must belong to that state. Cases the reference iteration finds hard (detours, near singular gain) only have to end without a crash. Limitations: measured flows leave the shunts at the ends of a line out (as in F01), PJ/QJ types are accepted but constrain nothing, current measurements are |S|/V, the report does not list VA, IIJ and IJI, and the branch summary is the series flow.""",
'G02': """Generated (`harness/h_ds.cpp`): cases of the F01 generator with machines (GENCLS, GENROU, GENSAL with and without saturation, generators without a model, out of service or with negative output), a time step, and a schedule of events: bus faults (any admittance, overlapping on several buses), lines opened and closed again (not bridges; parallel and transformer branches, named in either direction, with short ids), machines tripped and put back, in any order in the file, at times on and between the steps. The application reads and solves the power flow, copies the network, and is run in pieces, then reset and run a second time with one of the events (`setEvent`), on 1-6 processes, sub-groups, with and without the iterative network solution. Oracle: an independent dense reference (machine equations of the three models, Heun steps, network solved with the admittances in force). Compared at every stop: the voltage of every bus, angle and speed of every machine, the power of the machines, the time; without events also the distance from the power flow solution. A twin of the reference with a perturbation of 1e-9 shows how errors grow; cases in which they grow by more than 1000 or a machine runs away are stopped there. Limitations: exciters, governors, stabilisers, relays and dynamic loads are not part of the model; a machine put back continues from the state it had when tripped; the resistance of ZSOURCE is not used by GENCLS.""",
'A03': """Generated: tables in text form - comments at the top and between rows, blank lines, tabs, runs of blanks, quoted tags, one and two character tags, several rows per bus, unknown buses, a missing final newline, more rows than one transfer holds - and files that are missing, empty or without columns, read repeatedly into the same or a new table on (sub-)groups of 1 to 4 processes, in part while the other groups do nothing. Oracle: for every process the rows of the buses it holds (own and ghost) as (bus, tag, values), compared as multisets through `getValues` of every column in any order; headers; number of columns; refusal on every process.""",
'A04': """Stateful: a case is read on 1-4 processes (sub-communicators too); a history of totals, scaling of loads, scaling of generation, resets and power flows over random areas and zones. Oracle: the same bookkeeping on the generated case; a power flow after scaling must satisfy the balance of the scaled case and match the independent Newton solution. The counts, per-bus and per-branch figures, connected branches, end points and field lookups of `NetworkAnalytics` are compared with the case on every process.""",
'Y01': """Generated (`harness/pfcase.hpp`, shared by Y01, F01, F02 and others): whole cases - connected graphs with parallel and reversed lines and two-winding transformers (tap, phase shift), charging, line shunts, series capacitors, fixed and switched shunts, outages of each of them, isolated buses - written as a version 33 file in any record order, parsed and partitioned on (sub-)groups of 1 to 4 processes, loaded once or twice; then a history of switching elements and switching back. Oracle: the matrix of the pi-model summed in the harness over the generated elements; compared with the diagonal, forward and reverse terms of the components, every element of the mapped matrix, and the contributions of single elements. The magnetising susceptance of a transformer counts as its charging, as the parsers store it (a documented simplification; a magnetising conductance is dropped).""",
'S01': """Generated: lists of fields joined with random separators, padding and quotes; tags in all documented paddings; files with and without trailing newline, also through the in-memory reader. Oracle: the list of fields that was written.""",
'M01': """Generated: networks with random block sizes, absent blocks and random values, hand-placed owners (also processes without branches), complex and real, dense and sparse, re-assembly, overwriting and increments. Oracle: the dense matrix summed from the declared blocks, rows ordered by the assigned indices.""",
'M02': """As M01 for vectors, including pushing changed vectors back, and agreement of row ranges with matrices of the same block sizes.""",
'M03': """Generated: components declaring numbers of rows, columns, vector elements and slab rows, values in own and in each other's columns. Oracle: learn the indices every copy was given (they must agree and form a permutation), then compare matrix, vector and slab with the declared values, and what is pushed back with what is in them.""",
'L01': """Generated: one to several vectors (real and complex, also on sub-groups and with processes that own nothing, and with operands distributed otherwise), sequences of up to 30 operations: element and range writes, adds, fill, zero, scale, add with scale, element-wise multiply/divide, reciprocal, real/imaginary/abs/exp/conjugate, norms, clone, equate, local and global reads, save/load. Oracle: the same sequence on `std::vector`; sums exact where the values are small integers, otherwise 1e-10 relative.""",
'L02': """Generated: matrices of every storage kind (dense, sparse with and without row limits, also derived ones), square and rectangular, rows and columns spread unevenly, sequences of assembly, add, equate, scale, diagonal changes, transpose, products, row/column/diagonal extraction, storage conversion, clone, save/load. Oracle: plain dense arrays. Documented limits kept: operations on the diagonal of a sparse matrix need the diagonal in its structure, equate needs a target whose pattern contains the source's, values can only be set inside the pattern after the first assembly, dense matrices cannot be loaded from a binary file. Known finding: adding a matrix with other row ownership (probe `L02X`).""",
'L03': """Generated: non-singular systems (diagonally dominant, permuted, with known solution, also nearly symmetric, complex and real), every solver choice reachable through the configuration (PETSc options for direct and iterative methods, tolerances, initial guess, serial solve), repeated solves with changed right-hand sides and matrices, matrix solvers (basic, PETSc factorizations, identity right-hand side = inverse) and the small dense solver. Oracle: the residual recomputed from the values written, inputs unchanged.""",
'L04': """Generated: systems of equations with a known root and diagonal dominant Jacobian (polynomial and trigonometric couplings), starts close to and far from it, tolerances and iteration limits, both nonlinear solvers. Oracle: residual of the same equations evaluated in plain C++ at the point returned; calls that cannot converge in the limit must fail on every process. PETSc SNES may also stop on relative reduction (1e-8) or a small step; the oracle allows exactly these.""",
'L05': """Generated: linear DAE systems with known exact trajectories (coupled, real and complex, mass matrix with algebraic rows), fixed and adaptive steps, several calls on one solver, step limits, re-initialisation, pre/post-step callbacks, and events with thresholds, directions and terminating flags. Oracle: the exact solution with an error bound from the step, times and counts of callbacks, and for every event whether its condition changed sign in the step. Kept away because of PETSc 3.19 itself: two events inside one step, events in adaptive runs, continuing after a terminating event, events together with step limits. Known finding: the requested direction is ignored (probe `L05X`).""",
}
TAIL = """
## Limits

Process schedules are perturbed (random delays, oversubscription), not enumerated. Floating point results are compared exactly
where sums are exact by construction and otherwise with the tolerance stated in the harness. Numbers of processes go up to 8.
"""
