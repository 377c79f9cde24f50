#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so that statements are easy to review)."""
import json, os
B = "include/qlmps/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [B + f for f in files],
         "mechanism": [{"name": n, "where": B + w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

G = "one_dim_tn/mpo/mpogen/"
prop("P01", "Symbolic MPO expands to exactly the sum of the added terms",
 "For every list of operator strings added to the finite state machine of a chain (any length, overlap, repetition, coefficient, insertion order, and site-dependent identities), multiplying the generated site matrices from left to right gives exactly the formal sum of those strings, each with its coefficient and multiplicity. This holds for the plain matrices and for the compressed ones, whose bond sizes never exceed the plain ones. The machine reports its paths as they were added, each path through the node of every site in the ready state before its string, the final state after it and states of its own in between.",
 ["inputs", "histories"], "all finite lists of one-site and multi-site strings on chains of any length, in any order of addition",
 "The unit tests compare a dozen hand-written term lists with hand-written matrices; the claim is over all term lists, where merges, repeats and coefficient moves combine.",
 [G+"fsm.h", G+"symb_alg/coef_op_alg.h"],
 [("FSM path casting", G+"fsm.h"), ("column/row compression sweeps", G+"fsm.h"), ("delinearization", G+"symb_alg/coef_op_alg.h")],
 ["FSM::GenMatRepr", "FSM::GenCompressedMatRepr"])
prop("P02", "Symbolic coefficients and operators behave as formal linear sums",
 "Symbolic coefficients and operators are formal sums: coefficients compare equal exactly when they are the same multiset of labels, addition collects like terms without losing or duplicating any, and turning them into numbers is linear. Splitting an operator into a common coefficient and a base and multiplying back restores it, and the printed form spells out exactly the terms of the sum.",
 ["inputs", "histories"], "all sums of coefficient and operator labels, built by any sequence of constructions, copies, moves and additions",
 "Tests use fixed tiny expressions; multiset equality, collection and linearity must hold for every expression.",
 [G+"symb_alg/coef_op_alg.h"],
 [("coefficient label list", G+"symb_alg/coef_op_alg.h"), ("operator label to coefficient map", G+"symb_alg/coef_op_alg.h"), ("SeparateCoefAndBase", G+"symb_alg/coef_op_alg.h")],
 ["CoefRepr", "OpRepr", "SeparateCoefAndBase"])
prop("P03", "Sparse symbolic matrix agrees with a dense matrix under any edit history",
 "After any sequence of element writes, row/column removals, swaps, permutations, copies and assignments, the sparse matrix used for symbolic MPOs reads back, element by element, row by row and column by column, exactly as a dense matrix subjected to the same edits. Its reported shape, emptiness of entries and equality comparison agree with that dense matrix.",
 ["histories"], "all finite edit histories on matrices of any shape",
 "Tests check single edits on one or two shapes; index bookkeeping errors appear only after combinations of edits.",
 [G+"symb_alg/sparse_mat.h"],
 [("index indirection table", G+"symb_alg/sparse_mat.h"), ("row/column removal", G+"symb_alg/sparse_mat.h")],
 ["SparMat public API"])
prop("P04", "Row and column compression keep the two-site product and never enlarge",
 "Compressing the shared bond of two neighbouring symbolic site matrices, by columns or by rows, leaves their symbolic matrix product unchanged up to nothing but reordering inside sums. The shared bond never grows and the outer bonds keep size and order, and applying the compression again keeps both facts. On the matrices term lists generate, columns (rows) that repeat up to one common coefficient are merged, and so are sums, with one coefficient each, of columns (rows) that share no entry.",
 ["inputs"], "all pairs of neighbouring symbolic site matrices of the kind term lists generate",
 "Tests pin a few pairs; the claim ranges over all sparsity patterns, proportional rows/columns and coefficient placements.",
 [G+"symb_alg/coef_op_alg.h"],
 [("row/column compressers", G+"symb_alg/coef_op_alg.h"), ("linear combination search", G+"symb_alg/coef_op_alg.h")],
 ["SparOpReprMatColCompresser", "SparOpReprMatRowCompresser"])
prop("P05", "Labels given to coefficients and operators are stable and one-to-one",
 "Converting objects to labels gives equal objects the same label forever and different objects different labels, labels are consecutive from zero with the identity object first, and the label table returns the very object for each label. This holds for any order and repetition of conversions, and after the converter is copied or assigned.",
 ["histories"], "all conversion histories over numbers, complex numbers, strings and symbolic objects",
 "Tests convert two or three objects; stability is a statement about all histories.",
 [G+"fsm.h"], [("LabelConvertor", G+"fsm.h")], ["LabelConvertor::Convert", "LabelConvertor::GetLabelObjMapping"])
prop("P07", "Owning tensor vectors copy deeply, move cleanly and never leak or double free",
 "After any sequence of allocations, releases, reference or pointer writes, copies, moves (including self-assignment) and destruction, the fixed-size owning vectors hold exactly the elements a reference model holds, copies are independent of their sources, and a moved-from vector keeps its size and stays usable with its slots empty. Every element ever created is destroyed exactly once and no freed memory is touched.",
 ["histories"], "all finite operation histories over several vectors, with plain and throwing-free instrumented elements",
 "Tests perform each operation once; ownership errors need histories and a memory monitor.",
 ["one_dim_tn/framework/duovector.h", "one_dim_tn/framework/ten_vec.h"],
 [("raw owning pointers", "one_dim_tn/framework/duovector.h")], ["DuoVector public API"])
prop("P09", "A wrong or missing simulation parameter is reported, never silently accepted",
 "For every parameter file and key, a strict read whose key is missing or whose value is not of the requested kind (a fractional, boolean, out-of-range or negative-where-unsigned number, a wrong element in a list, and so on) prints a diagnostic naming the file, the key, the expected kind and, for a wrong value, the actual kind, and ends the program with status 1. The non-fatal read of the same key returns false, leaves its output untouched and never ends the program, and a file that cannot be opened, is not valid, or lacks the parameter section never yields a parser.",
 ["inputs"], "all parameter files and keys, all value kinds, for each of the eight parameter types",
 "Tests cover one wrong value per type on two fixed files; the contract covers every JSON value and every reader.",
 ["case_params_parser.h"], [("strict and try parse templates", "case_params_parser.h"), ("diagnostics", "case_params_parser.h")],
 ["process exit status", "stderr", "TryParse* results"])
prop("P10", "Well-formed simulation parameters are read back exactly and consistently",
 "For every parameter file, a parameter of the requested kind is read with exactly the value the file gives, and the strict, defaulted and non-fatal readers agree on it; existence queries are true exactly for the keys present in the parameter section and never for keys elsewhere. The defaulted readers return the default exactly when the key is missing.",
 ["inputs"], "all well-formed parameter files, keys (including unusual names), numbers at the range limits, strings and lists",
 "Tests read one fixed file with one value of each type.",
 ["case_params_parser.h"], [("typed readers", "case_params_parser.h")], ["Parse*, Parse*Or, TryParse*, Has"])
prop("P11", "Memory figures and directory helpers report the true state of the system",
 "The memory monitor always reports total memory equal to the machine's, used plus free equal to total with all figures between zero and total and tracking the system's free memory (free plus buffer memory), in its query and in its printed checkpoint. The path helpers report existence exactly, create a directory that is then usable, and signal failure to create instead of continuing.",
 ["configurations", "histories"], "all system states and all path states (absent, file, directory, missing parent, already existing)",
 "No test covers them.",
 ["memory_monitor.h", "utilities.h"], [("MemoryMonitor", "memory_monitor.h"), ("IsPathExist, CreatPath", "utilities.h")],
 ["GetMemoryInfo", "Checkpoint output", "filesystem"])
prop("P12", "Solver and sweep parameter objects carry exactly what the user asked for",
 "Every parameter object of the solvers (Lanczos, sweep and time evolution) keeps each constructor argument in the matching field, uses the documented defaults for the omitted ones, and survives copying and conversion unchanged. A sweep object asks for noise exactly when a nonzero noise value was given.",
 ["configurations"], "all argument values and all argument subsets of the constructors",
 "Tests construct them but never look at the fields; a swapped field only changes accuracy or speed.",
 ["algorithm/lanczos_params.h", "algorithm/finite_vmps_sweep_params.h", "algorithm/tdvp/tdvp_evolve_params.h", "consts.h"],
 [("LanczosParams", "algorithm/lanczos_params.h"), ("FiniteVMPSSweepParams", "algorithm/finite_vmps_sweep_params.h"), ("TDVPEvolveParams", "algorithm/tdvp/tdvp_evolve_params.h")],
 ["public fields"])
prop("P08", "What is written to disk is read back identically",
 "Tensors, matrix product states and operators dumped to disk and loaded again are identical to the originals, with or without releasing memory on dumping, wherever the files are placed. Reading a missing or truncated tensor file is reported and never accepted as data, and a file that cannot be written completely is reported before anything is released from memory.",
 ["inputs", "histories", "fault_sequences"], "all states, symmetry sectors, directories and dump/load orders; missing, truncated and unwritable files",
 "Tests round trip one state in the default directory.",
 ["one_dim_tn/framework/ten_vec.h", "one_dim_tn/mps/mps.h", "one_dim_tn/mps/finite_mps/finite_mps.h", "utilities.h", "algorithm/dmrg/operator_io.h"],
 [("Dump/Load", "one_dim_tn/mps/finite_mps/finite_mps.h"), ("DumpTen/LoadTen", "one_dim_tn/framework/ten_vec.h")], ["files", "tensors"])
prop("P13", "The numerical MPO is the Hamiltonian the user specified",
 "For every list of terms (any sites, order, complex or real coefficients, insertion strings, compressed or not, with or without symmetry sectors), the tensor MPO and the matrix-form MPO the generator returns, contracted to a dense matrix, equal the sum of the Kronecker products of the specified operators with their coefficients. The bond indices of neighbouring MPO tensors match and the boundary tensors close the chain. Site vectors keep the local spaces (directed outwards) and identity operators they were made with when copied or assigned.",
 ["inputs"], "all term lists on chains of any length with uniform or mixed local spaces",
 "Tests compare tensors for a few tiny models; errors in merging, insertion-operator placement or sector bookkeeping depend on the term list.",
 [G+"mpogen.h", G+"mpogen_impl.h", "one_dim_tn/mpo/mat_repr_mpo.h"],
 [("AddTerm", G+"mpogen_impl.h"), ("Gen", G+"mpogen_impl.h"), ("GenMatReprMPO", G+"mpogen_impl.h")], ["MPO tensors"])
prop("P14", "Built-in lattice models supply operators with the right algebra",
 "The built-in spin-1/2, t-J and Hubbard sites give operators with the matrix elements of their definition on the documented basis: canonical anticommutation or spin commutation relations, number operators, projectors, parity and hopping strings, each carrying the symmetry charge it should. Sites with and without conserved charges describe the same operators.",
 ["configurations"], "all built-in models, symmetry choices and operator pairs",
 "No test checks these operators against each other or their algebra.",
 ["model_relevant/operators/operators_all.h", "model_relevant/operators/fermion/hubbard_operators.h", "model_relevant/operators/fermion/tJ_operators.h", "model_relevant/operators/spin/spin_one_half_operators.h", "model_relevant/sites/fermion/hubbard_sites.h", "model_relevant/sites/fermion/tJ_sites.h", "model_relevant/sites/spin/spin_one_half_sites.h", "site_vec.h"],
 [("operator tables", "model_relevant/operators/operators_all.h")], ["operator tensors"])
prop("P15", "Moving or truncating the orthogonality centre keeps the state",
 "For every matrix product state, moving the orthogonality centre anywhere, in memory or site by site, leaves the represented state unchanged and makes every site left (right) of the centre left (right) orthonormal, with matching bond indices. Truncation keeps the norm of the discarded part within what the reported discarded weights allow, respects the bond limits, and truncating with no loss keeps the state.",
 ["inputs", "histories"], "all states, symmetry sectors, centre moves and truncation parameters",
 "Tests check a handful of random states; the claim is for all states and all histories of centre moves.",
 ["one_dim_tn/mps/finite_mps/finite_mps.h", "one_dim_tn/mps/mps.h"],
 [("Centralize, LeftCanonicalize, RightCanonicalize, TruncateMPS", "one_dim_tn/mps/finite_mps/finite_mps.h")], ["dense state vector"])
prop("P16", "State algebra: sums, overlaps and entanglement match the dense vectors",
 "Linear combination, scaling, overlaps and entanglement entropies of matrix product states equal those of the state vectors they represent, including complex coefficients, states of different bond size and product states. Operands are not modified.",
 ["inputs"], "all pairs of states with equal local spaces, all coefficients and cuts",
 "Tests add two states and take one entropy.",
 ["one_dim_tn/mps/finite_mps/finite_mps_ops.h", "one_dim_tn/mps/finite_mps/finite_mps.h"],
 [("finite MPS operations", "one_dim_tn/mps/finite_mps/finite_mps_ops.h")], ["dense state vector"])
prop("P17", "Measured expectation values equal those of the state, in memory and on disk",
 "One-site, two-site, multi-site and four-site-group measurements return, for every normalized state, operator, insertion string and ascending site list (edge sites and strings behind the last operator included), exactly the expectation values of the represented state, with the sites they belong to, and write the same values to the result files. The memory and disk variants agree and leave the state unchanged.",
 ["inputs", "histories"], "all states, operators, insertion operators and site lists accepted by the measurement functions",
 "Tests measure a few operators on small states.",
 ["one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h", "one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h"],
 [("measurement kernels", "one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h"), ("disk variants", "one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h")], ["returned values", "result files"])
prop("P18", "Operator algebra on finite MPOs matches dense matrices",
 "Sums, products, squares, traces, scaling, normalization, centre moves, copies, writing and reading back, truncation and exponentiation of finite matrix product operators equal the same operations on the dense matrices they represent, within the truncation asked for: bond limits are kept, the error stays within what the limits and the cutoff allow, stated centres and canonical types are true (scaling keeps the centre), operands are left as they were, and the variational product on chains of three or more sites is an orthogonal projection of the exact product that equals it when started from a guess whose bonds suffice.",
 ["inputs"], "all finite matrix product operators over one local space",
 "Tests cover one or two models.",
 ["one_dim_tn/mpo/finite_mpo/finite_mpo.h", "one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h", "one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h"],
 [("FiniteMPO", "one_dim_tn/mpo/finite_mpo/finite_mpo.h")], ["dense operator"])
prop("P19", "The Lanczos solver returns a true lowest eigenpair estimate",
 "For every Hermitian effective Hamiltonian and nonzero start vector, the Lanczos ground-state solver returns a normalized vector whose energy expectation equals the returned energy, never below the true lowest energy and never above the start vector's energy, converged to the lowest energy reachable from the start vector when iterations allow. It stops within the iteration limit, stops at the first vector that no longer lowers the energy by more than the requested error, and does not leak or reuse freed memory.",
 ["inputs", "configurations"], "all Hermitian problems for two-site, single-site and matrix-form variants, all start vectors (including eigenvectors and dimension-one spaces) and limits",
 "Tests solve one random problem each.",
 ["algorithm/vmps/lanczos_vmps_solver_impl.h", "algorithm/dmrg/lanczos_dmrg_solver_impl.h"],
 [("Lanczos iteration", "algorithm/vmps/lanczos_vmps_solver_impl.h"), ("matrix-form Lanczos", "algorithm/dmrg/lanczos_dmrg_solver_impl.h")], ["LanczosRes"])
prop("P20", "The Lanczos exponential solver evolves vectors correctly",
 "For every Hermitian effective Hamiltonian, start vector and time step, the Lanczos exponential solver returns the vector evolved by the matrix exponential within its tolerance when iterations allow, with the norm preserved for real time. It stops within the iteration limit, stops at the first vector that no longer changes the result by more than the requested error, and frees what it allocates.",
 ["inputs", "configurations"], "all Hermitian problems of the zero-, one- and two-site variants, vectors and time steps",
 "Tests evolve one vector.",
 ["algorithm/tdvp/lanczos_expmv_solver_impl.h"], [("LanczosExpmvSolver", "algorithm/tdvp/lanczos_expmv_solver_impl.h")], ["ExpmvRes"])
prop("P21", "Variational sweeps return a bound-respecting, self-consistent ground state",
 "On chains of at least three sites, single-site, two-site and noisy two-site sweeps return an energy equal to the energy of the state they leave on disk within tolerance (up to what the last step reports as cut off), never below the exact lowest energy of the symmetry sector, not above the start energy when nothing is cut off, and equal to the exact one when the bonds span the whole space and the solver may converge. The state left on disk keeps norm one up to the reported truncation, its charge sector, the bond limit (noise may leave the bond next to the centre expanded) and the documented centre position, and a run can be restarted from it with the same method, with or without the saved environments, without losing energy.",
 ["inputs", "configurations", "histories"], "all Hamiltonians, start states, bond limits and sweep schedules, including restarts",
 "Tests compare the final energy of a few models with reference numbers, on one schedule each.",
 ["algorithm/vmps/two_site_update_finite_vmps_impl.h", "algorithm/vmps/single_site_update_finite_vmps_impl.h", "algorithm/vmps/two_site_update_noise_finite_vmps_impl.h", "algorithm/vmps/vmps_init.h"],
 [("sweeps", "algorithm/vmps/two_site_update_finite_vmps_impl.h"), ("environments on disk", "algorithm/vmps/vmps_init.h")], ["returned energy", "MPS directory"])
prop("P22", "The matrix-form DMRG agrees with the tensor form and stops cleanly on request",
 "The DMRG driver with a matrix-form Hamiltonian obeys the same guarantees as the tensor-form sweeps and leaves the centre on the first site. When asked to stop by SIGUSR1 or SIGUSR2 at any point of a run it finishes the sweep, leaves a consistent state on disk and returns; when asked by SIGINT or SIGTERM it does at most one more update and leaves all tensors of one and the same state, in canonical form around some site, on disk. Chains have three or more sites.",
 ["inputs", "configurations", "schedules"], "all Hamiltonians and schedules, stop requests at any point of the run",
 "Tests check final energies only and never send a signal.",
 ["algorithm/dmrg/dmrg.h", "algorithm/dmrg/dmrg_impl.h", "algorithm/dmrg/dmrg_init.h"],
 [("DMRGExecutor", "algorithm/dmrg/dmrg_impl.h")], ["returned energy", "MPS directory", "signals"])
prop("P23", "Time evolution reproduces the exact dynamics and conserves its invariants",
 "Two-site time-dependent variational evolution without truncation conserves norm, energy and charge; where the bonds of the state span the whole space around every site it equals the exact evolution, and where they are as large as the chain allows it equals it up to the third-order step error. The dynamical correlations returned and written to the result file are those of the initial state, the operated and evolved state, the measured operator and the strings, with the stated phase, sites and times; the initial state is kept on disk unchanged. Chains have three or more sites.",
 ["inputs", "configurations"], "all Hermitian Hamiltonians, initial states, local operators and steps on small chains",
 "Tests run one model with one step size.",
 ["algorithm/tdvp/two_site_update_finite_tdvp_impl.h"], [("TwoSiteFiniteTDVP", "algorithm/tdvp/two_site_update_finite_tdvp_impl.h")], ["MPS directories", "measurement file"])
prop("P24", "The parallel algorithms answer like the sequential ones under every schedule",
 "The distributed two-site sweep (plain and noisy), matrix-form DMRG and time evolution terminate on any number of ranks, under every order in which the network may deliver and match messages: no deadlock, no mismatched or orphaned message or collective, no rank left behind. Whatever the schedule, the result has the guarantees of the sequential programs: the energy returned on the first rank is that of the state on disk (exactly without truncation), it is inside the spectrum and not above the start, the state is normalized, in its charge sector, within the bond limit and has the documented centre; time evolution reproduces the exact dynamics and correlations with a normalized state on disk. The log of the first rank is true of the state as for the sequential programs. Other ranks return zero energies, take sweep count, paths and limits from the first rank only, and touch no files. The threads of a rank never race for its state. Chains have three or more sites; the Hamiltonian is valid on every rank.",
 ["schedules", "inputs", "configurations"], "all rank counts, network orders, Hamiltonians, states, bond limits, noise schedules, solver limits and restarts on small chains",
 "No test of the suite that builds here uses more than one process, and a run under a real MPI samples one friendly schedule.",
 ["algo_mpi/vmps/two_site_update_finite_vmps_mpi_impl_master.h", "algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h", "algo_mpi/dmrg/dmrg_mpi_impl_master.h", "algo_mpi/dmrg/dmrg_mpi_impl_slave.h", "algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h"],
 [("MasterLanczosSolver", "algo_mpi/vmps/lanczos_solver_mpi_master.h"), ("environment growth", "algo_mpi/env_ten_update_master.h")], ["MPI messages and collectives", "MPS directories", "energies", "printed sweep log"])
prop("P25", "Every update a sweep reports is true of the state at that moment",
 "The sweep drivers report every update of every sweep, in order, from one end of the range they announce to the other and back, leaving out only end sites whose bonds already span their whole space. The energy, discarded weight, bond dimension and entanglement entropy reported for an update are those of the state as it stands right after it (noise aside), the iteration count respects its limit, and the state has the stated centre, charge and bond limit at every such moment. The last reported energy is the returned one, and the announced parameters are those that were asked for. Time evolution reports every pair and backward step of every time step likewise.",
 ["inputs", "histories"], "all chains, Hamiltonians, bond limits, noise schedules and restarts, at every update of a run",
 "Tests look at the final energy only; nothing reads the log or the intermediate states.",
 ["algorithm/vmps/two_site_update_finite_vmps_impl.h", "algorithm/vmps/single_site_update_finite_vmps_impl.h", "algorithm/vmps/two_site_update_noise_finite_vmps_impl.h", "algorithm/dmrg/dmrg_impl.h", "algorithm/tdvp/two_site_update_finite_tdvp_impl.h"],
 [("ranges", "algorithm/vmps/vmps_init.h"), ("MeasureEE", "algorithm/vmps/two_site_update_finite_vmps_impl.h")], ["printed sweep log", "MPS in memory and on disk during a sweep"])
prop("P26", "Sweep drivers clean up and keep only the files they promise",
 "Sweep, evolution, measurement and exponentiation drivers own only their directories. After a normal run the state directory holds exactly one tensor file per site, nothing new lies outside the declared state, temporary and result paths, temporary files carry the documented names and do not accumulate, no file stays open, and neither the input Hamiltonian nor a file of somebody else is changed or removed. Measurements leave the state on disk byte for byte as it was and write exactly the named result file.",
 ["histories", "configurations"], "all sequences of normal driver runs, in fresh and reused directories, with any foreign files around them",
 "Tests delete their directories without looking at them.",
 ["algorithm/vmps/two_site_update_finite_vmps_impl.h", "algorithm/dmrg/dmrg_impl.h", "one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h"],
 [("temporary directories", "algorithm/vmps/vmps_init.h")], ["file system tree"])
prop("P27", "Initial states have the requested occupation, charge and norm",
 "Product-state, superposition and random initializers produce states whose vector is the one requested (or lies in the requested charge sector with the requested bond limit), with matching bond indices, one-dimensional boundary legs, unit norm where promised, and an orthogonality centre where stated.",
 ["inputs"], "all occupation lists, sectors, bond limits and chain lengths",
 "Tests initialize a few fixed patterns.",
 ["one_dim_tn/mps/finite_mps/finite_mps_init.h"], [("initializers", "one_dim_tn/mps/finite_mps/finite_mps_init.h")], ["dense state vector"])
prop("P28", "Compressed bonds are minimal on short-range lattice models",
 "On the usual lattice models (chains with nearest- and next-nearest-neighbour couplings, ladders, several operators per bond, on-site terms, three-site terms, uniform long-range couplings, disordered chains, fermions with strings, an impurity coupled to the rest, plaquette terms, disordered long-range products), the compressed matrices the term list produces have on every bond exactly the operator Schmidt rank of the symbolic Hamiltonian across that bond, so that the Hamiltonian costs no more than it must. No bond of any generated matrices is ever below that rank.",
 ["inputs"], "all chain lengths, widths, couplings and orders in which the terms of such models are added",
 "Tests pin the matrices of a few two- to five-site examples.",
 [G+"fsm.h", G+"symb_alg/coef_op_alg.h"],
 [("finite state machine to matrices", G+"fsm.h"), ("row/column compression", G+"symb_alg/coef_op_alg.h")],
 ["FSM::GenCompressedMatRepr"])
prop("P29", "Builds with the timing modes on compute the same",
 "Switching on the timing modes of the library (QLMPS_TIMING_MODE, QLMPS_MPI_TIMING_MODE) changes nothing but the printed timers: sequential and parallel sweeps, matrix-form DMRG (also when stopped by a signal) and time evolution keep every guarantee they give without, about the states on disk, the returned energies and correlations, the messages on the network, and the reports of the updates.",
 ["configurations", "inputs", "schedules"], "all runs of every driver of the sequential and the parallel algorithms, compiled with the timing modes on",
 "No test is compiled with the timing modes; they add and move code in twenty files, so a slip there is seen by nobody until somebody profiles a run.",
 ["algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h", "algo_mpi/dmrg/dmrg_mpi_impl_slave.h", "algo_mpi/env_ten_update_master.h", "algorithm/vmps/two_site_update_noise_finite_vmps_impl.h", "algorithm/dmrg/dmrg_impl.h", "algorithm/tdvp/two_site_update_finite_tdvp_impl.h"],
 [("timing blocks", "algorithm/vmps/single_site_update_finite_vmps_impl.h"), ("timing blocks of the other ranks", "algo_mpi/dmrg/dmrg_mpi_impl_slave.h")], ["MPS directories", "energies", "MPI messages and collectives", "printed sweep log"])
prop("P30", "A run is a function of its input",
 "On one machine and build, with the same arguments, the same files and the same state of the standard random generator, a computation gives the same results to the last bit: the matrices of a Hamiltonian, initial states, truncated and summed operators, measured values, the files a sweep or a time evolution leaves, the energies it returns and the numbers it reports. Nothing depends on the contents of fresh or uninitialised memory, on addresses, on the name of the working directory, or on what the same process computed before.",
 ["inputs", "histories", "memory contents"], "all inputs, all earlier runs in the process, all contents of uninitialised memory",
 "Tests run a case once in a fresh process, where unset memory is usually zero; a value read before it is set, an order taken from addresses, or something kept in a static variable goes unnoticed there and shows as results that cannot be reproduced.",
 ["algorithm/vmps/single_site_update_finite_vmps_impl.h", "algorithm/vmps/two_site_update_noise_finite_vmps_impl.h", "algorithm/dmrg/dmrg_impl.h", "algorithm/tdvp/two_site_update_finite_tdvp_impl.h", "one_dim_tn/mpo/mpogen/mpogen.h", "one_dim_tn/mps/finite_mps/finite_mps_init.h", "one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h", "one_dim_tn/mpo/finite_mpo/finite_mpo.h", "algorithm/finite_vmps_sweep_params.h"],
 [("running noise", "algorithm/vmps/single_site_update_finite_vmps_impl.h"), ("sweep parameters", "algorithm/finite_vmps_sweep_params.h")], ["MPS directories", "returned values", "tensors", "printed sweep log"])
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
