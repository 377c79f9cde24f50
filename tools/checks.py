"""What each check builds and runs. Case counts, never seconds, bound a run."""
GXX = ["g++", "-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # Release semantics (asserts off, as users build it) under AddressSanitizer + UndefinedBehaviorSanitizer
    "rel": {"cc": GXX + ["-O1", "-DNDEBUG", "-DRelease"] + SAN},
    # the library's own assertions on, same sanitizers
    "dbg": {"cc": GXX + ["-O1"] + SAN},
    # optimized, no sanitizer: volume, and cases that fork
    "opt": {"cc": GXX + ["-O2", "-DNDEBUG"]},
}
# the same three for harnesses over tensors: lib/qlten stands in for TensorToolkit, MKL is the BLAS/LAPACK
MKL = ["-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core", "-lpthread", "-ldl", "-lm"]
for _v in ("rel", "dbg", "opt"):
    VARIANTS["t" + _v] = {"cc": VARIANTS[_v]["cc"] + ["-I/usr/include/mkl"], "ld": MKL}
# the drivers' own timing modes switched on (extra timers inside the code under test)
VARIANTS["ttim"] = {"cc": VARIANTS["trel"]["cc"] + ["-DQLMPS_TIMING_MODE", "-DQLMPS_MPI_TIMING_MODE"], "ld": MKL}
# ThreadSanitizer: for the threads that load tensors while the master of a parallel noisy sweep computes
VARIANTS["ttsan"] = {"cc": GXX + ["-O1", "-DNDEBUG", "-DRelease", "-fsanitize=thread", "-I/usr/include/mkl"], "ld": MKL}
# two programs whose unset local variables hold zeros and a pattern
VARIANTS["ttwin"] = {"cc": VARIANTS["topt"]["cc"] + ["-ftrivial-auto-var-init=zero"], "twin": ["-ftrivial-auto-var-init=pattern"], "ld": MKL}
CHECKS = {}

def check(pid, runs, rule, technique, note, expect=None, assumptions=None, level="exploration"):
    CHECKS[pid] = {"runs": runs, "rule": rule, "technique": technique, "note": note,
                   "expect": expect or {"checks": 100}, "assumptions": assumptions or [], "level": level}

def run(src, variants, quick, thorough, **kw):
    return dict(src=src, variants=variants, cases={"quick": quick, "thorough": thorough}, **kw)

SYM = "a formal sum is compared by evaluating it at two random points of the field with 2^61-1 elements (error probability below 1e-15 per case)"
check("P01", [run("p01_fsm.cc", ["rel", "dbg"], 6000, 150000)],
      "random term lists from ten families (chains, long range, ladders, strings, all-to-all, repeats, one-site, four-body, random), random order, site identities and coefficients; non-trivial: at least two terms on at least two sites; distinct by the full term list",
      "runtime monitoring: online oracle on generated matrices, under ASan/UBSan and library assertions",
      "Exploration. The matrices the real code generates (plain, compressed, and after a prefix of the list) are multiplied out and compared with the formal sum of the terms. " + SYM + ". Trusts the evaluation oracle in lib/symb.h.",
      {"terms": 10000, "nodes": 100000, "really_compressed": 500, "prefixes": 300}, ["each string is one coefficient label times one basis operator label per site, as the MPO generator produces them"])
check("P02", [run("p02_symb.cc", ["rel", "dbg"], 3000, 60000)],
      "25 random triples per case of coefficients and operators built through every constructor, copy, move and addition; non-trivial: more than one label or operator in the sum; distinct by the written-out triple",
      "runtime monitoring: model-based oracle (multisets) with sanitizers",
      "Exploration against a multiset model of sums, exact arithmetic for realization, and an independent reader of the printed form.",
      {"equal_permuted": 500, "common_coefficient_split": 500, "no_common_coefficient": 500}, ["printed forms are checked for coefficient labels up to 26 and operator labels up to 120"])
check("P03", [run("p03_sparmat.cc", ["rel", "dbg"], 3000, 60000)],
      "random edit histories over two matrices for three element kinds; non-trivial: more than four kinds of edits in the history; distinct by the edit sequence",
      "runtime monitoring: model-based oracle (dense matrix) after every edit, with sanitizers",
      "Exploration. Every entry, row, column, shape and equality is compared with a dense model after every single edit.",
      {"edits": 50000, "sorts": 1000, "equal_pairs": 500})
check("P04", [run("p04_compress.cc", ["rel", "dbg"], 4000, 120000)],
      "bonds of the plain matrices of random term lists in sweep order, plus synthetic neighbours with proportional, equal and summed rows or columns, among them weighted sums of disjoint lines in any order; non-trivial: bond larger than one; distinct by the matrices",
      "runtime monitoring: product invariant evaluated around every compression, with sanitizers and assertions",
      "Exploration. " + SYM + ".",
      {"col_reduced": 500, "row_reduced": 500, "col_mergeable": 300, "row_mergeable": 300, "col_sums_merged": 250, "row_sums_merged": 250})
check("P28", [run("p28_minimal.cc", ["rel", "dbg"], 6400, 60000)],
      "random lengths, widths, couplings, identities of sites and term orders of sixteen families of lattice models; non-trivial: at least two terms; distinct by family, length and term list",
      "runtime monitoring: exact rank oracle (operator Schmidt rank over the field with 2^61-1 elements) on every bond of the generated matrices, under ASan/UBSan and library assertions",
      "Exploration. The rank of the symbolic Hamiltonian across every bond is computed from the term list by elimination, independently of the finite state machine, and compared with the bond the real code produces, plain and compressed.",
      {"bonds": 20000, "really_compressed": 2000, "family_ladder": 250, "family_fermion-ladder": 250, "family_disordered-chain": 250, "family_three-site": 250, "family_impurity": 250, "family_bilinear-tail": 250, "family_plaquette": 250})
check("P05", [run("p05_labels.cc", ["rel", "dbg"], 3000, 60000)],
      "random conversion histories of doubles, complex numbers, integers and composite objects, with copies; non-trivial: a repeated conversion and more than two labels; distinct by the history",
      "runtime monitoring: model-based oracle (list of first occurrences) after every conversion",
      "Exploration; the whole label table is compared after every conversion.",
      {"conversions": 20000, "repeated": 5000})
check("P07", [run("p07_duovector.cc", ["rel"], 4000, 60000)],
      "random operation histories over four vectors (16 operations: writes, allocation, hand-over by pointer, copies, moves, self-assignment, temporaries, std::vector of vectors); non-trivial: more than six kinds of operations; distinct by the history",
      "runtime monitoring: instrumented element lifetimes plus AddressSanitizer against a reference model",
      "Exploration. Slots, values, liveness of every element and the number of live elements are compared after every operation; at the end every element must have been destroyed exactly once.",
      {"operations": 50000, "self_copy_assign": 500, "self_move_assign": 500, "move_construct": 500})
check("P09", [run("p09_parser.cc", ["opt"], 1200, 40000), run("p09_parser.cc", ["rel"], 240, 5000)],
      "random parameter files with near-miss values for each of the eight typed readers, missing keys, and fourteen kinds of unusable files; every strict failure runs in a child process whose status and stderr are observed; distinct by reader and value",
      "runtime monitoring: process-outcome oracle (exit status, diagnostics) over generated files",
      "Exploration with a value generator that knows the kind of every value without using the JSON library. Floats with an integral value (3.0) given for an integer are left open.",
      {"wrong_values": 5000, "strict_failures": 2000, "missing_keys": 1000, "bad_files": 300})
check("P10", [run("p10_parser.cc", ["rel"], 3000, 60000)],
      "random parameter files with random formatting, key names, nesting and values at range limits; every reader that fits a value reads it four ways and through a copy of the parser; distinct by reader and value",
      "runtime monitoring: value oracle over generated files, with sanitizers",
      "Exploration. The generator writes each value and knows what it means independently of the JSON library.",
      {"values_Int": 500, "values_Double": 500, "values_Char": 500, "values_Bool": 500, "values_IntVec": 500, "values_SizeTVec": 500, "values_DoubleVec": 500, "defaults": 20000})
check("P11", [run("p11_system.cc", ["opt"], 60, 1500, shards=2), run("p11_paths.cc", ["trel"], 600, 10000)],
      "memory: the real machine while the harness commits and releases memory, and synthetic machines of any size and accounting unit (or a failing query) behind a stand-in for the kernel call; paths: eleven kinds of path states (absent, file, directory, links, missing parent, no permission as an unprivileged user, ...) with random names; distinct by machine or path",
      "runtime monitoring: differential oracle against the kernel, fault injection at the system call, process-outcome oracle",
      "Exploration. Query, printed checkpoint and printed summary are compared with what the kernel (or its stand-in) reported; path helpers run in child processes whose outcome and effect on the file system are observed.",
      {"synthetic_machines": 300, "checkpoints": 20, "created": 60, "refused": 200})
check("P12", [run("p12_params.cc", ["trel", "tdbg"], 3000, 60000)],
      "random argument values (including special numbers and odd strings) for every arity of every constructor, then copies, moves, assignments, containers and conversions; distinct by arguments",
      "runtime monitoring: field-by-field oracle, under ASan/UBSan",
      "Exploration of the public fields after every way of building and copying the objects.",
      {"lanczos": 3000, "plain_sweeps": 500, "noisy_sweeps": 500, "zero_noise_sweeps": 200, "empty_noise_sweeps": 100, "tdvp": 3000}, ["TDVPEvolveParams holds tensors of lib/qlten"])
TENSOR = "tensors are those of lib/qlten, a dense stand-in for TensorToolkit (not installed) that refuses operations TensorToolkit would not define; it is validated by the repository's own tensor-level tests"
TA = ["lib/qlten behaves as TensorToolkit does for bosonic quantum numbers (it passes the repository's own tensor-level tests)", "no fermionic quantum numbers, single process"]
check("P13", [run("p13_mpogen.cc", ["trel", "tdbg"], 1500, 30000)],
      "random sites (uniform or mixed, no charge, one or two charges) and random term lists through every AddTerm form (one body, two bodies, strings uniform, chosen, in gaps, as a tail, any site order), repeated and sign-flipped operators, real and complex; generation plain, compressed and in matrix form, again after more terms; non-trivial: more than one term; distinct by sites, forms and operator norm",
      "runtime monitoring: differential oracle (dense Kronecker sums) on every generated operator, under ASan/UBSan and library assertions",
      "Exploration. Generated tensors are contracted to a dense matrix and compared with the sum of Kronecker products at 1e-11. " + TENSOR + ".",
      {"terms": 5000, "strings_with_tail": 200, "two_body_chosen_string": 200, "unsorted": 500, "bonds_over_two": 3000, "extended": 500, "implicit_tails": 40, "site_vectors": 5000, "scaled_lists": 200, "plain_coefficients": 1000, "repeated_coefficients": 300}, TA)
check("P08", [run("p08_disk.cc", ["trel", "tdbg"], 320, 6000)],
      "random states and operators on up to ten sites (numbers of every magnitude), dumped whole or tensor by tensor in any order under six kinds of paths, read whole or tensor by tensor into fresh or used objects, over older data, and after damage (missing file, missing centre, truncation at random places, full device, directory in the way, absent directory); non-trivial: more than one tensor; distinct by state and path",
      "runtime monitoring: bit-for-bit round-trip oracle with injected file damage, under ASan/UBSan and library assertions",
      "Exploration. Bytes read back are compared with the object written; every injected damage must surface as an exception or a false result. " + TENSOR + ".",
      {"states_read": 600, "truncated_reads": 1800, "unwritable": 300, "operators_read": 300, "groups_read": 300}, TA)
check("P14", [run("p14_models.cc", ["trel", "tdbg"], 480, 6000)],
      "every site and operator class of the shipped models in every quantum-number flavour, and random lattice Hamiltonians of each model on 2 to 5 sites; non-trivial: at least one coupling; distinct by model and couplings",
      "runtime monitoring: differential oracle (independently built dense operators and Jordan-Wigner strings)",
      "Exploration. Every shipped local operator and every generated model Hamiltonian is compared with a dense construction from occupation numbers. " + TENSOR + ".",
      {"operators": 1000, "couplings": 300}, TA)
check("P15", [run("p15_canon.cc", ["trel", "tdbg"], 2400, 40000)],
      "random states and random histories of canonicalization, truncation, writes, loads and copies; non-trivial: a bond larger than one; distinct by sites and history",
      "runtime monitoring: invariants evaluated after every operation against the dense state, under ASan/UBSan and library assertions",
      "Exploration. After every operation the dense state, each tensor claimed left or right canonical, and the claimed centre are verified. " + TENSOR + ".",
      {"ops": 8000, "lossy_truncations": 200, "center_claims": 1000, "left_flags": 1000, "right_flags": 1000}, TA)
check("P16", [run("p16_algebra.cc", ["trel", "tdbg"], 1600, 30000)],
      "random pairs and lists of states with common charge, random coefficients, product states and entangled states; non-trivial: an entangled bond; distinct by sites and coefficients",
      "runtime monitoring: differential oracle (dense vectors and their Schmidt spectra)",
      "Exploration. Sums, overlaps, norms, entanglement entropies and spectra are compared with dense vectors. " + TENSOR + ".",
      {"sums": 300, "combinations": 200, "overlaps": 500, "entropies": 1000, "entangled_bonds": 500, "product_state_entropies": 100}, TA)
check("P26", [run("p26_files.cc", ["trel", "tdbg"], 600, 8000)],
      "one to three runs of the two-site, noisy two-site, single-site and matrix-form sweeps (continued or of different kinds) on random chains of 3 to 7 sites, in default, sibling and nested directories among foreign files with confusable names, then a measurement, an exponential of the Hamiltonian and a time evolution; non-trivial: a file tree that is compared after every run; distinct by directories and history",
      "runtime monitoring: snapshots of the whole working tree and of the open descriptors before and after every driver call, compared with what the call may create, change or remove, under ASan/UBSan",
      "Exploration. After every call the monitor compares every file byte by byte: foreign files untouched, no file outside the declared directories, one tensor file per site in the state directory, temporary files only of the declared names and at most as many as environments, no descriptor left open; measurements leave the state byte-identical; the dense Hamiltonian is unchanged. " + TENSOR + ".",
      {"runs_two-site": 300, "runs_single-site": 200, "runs_noisy-two-site": 200, "runs_matrix-form": 250, "repeats": 500, "measurements": 400, "exponentials": 40, "evolutions": 180, "file_checks": 30000}, TA)
check("P27", [run("p27_init.cc", ["trel", "tdbg"], 1600, 30000)],
      "random occupations and random target charges on random chains; non-trivial: more than one site; distinct by sites and occupation",
      "runtime monitoring: differential oracle (dense basis states and total charge)",
      "Exploration. Product, random and superposed initial states are expanded densely and checked for charge, norm and content. " + TENSOR + ".",
      {"products": 300, "random_states": 200, "superpositions": 100, "boundaries": 1000}, TA)
check("P17", [run("p17_measure.cc", ["trel", "tdbg"], 800, 20000)],
      "random normalized states on 2 to 7 sites with random operators, insertion strings, tails and site lists through every measurement function in memory and from disk; non-trivial: more than one basis state; distinct by state",
      "runtime monitoring: differential oracle (dense expectation values) on returned values and result files, before/after oracle on memory and disk, under ASan/UBSan and library assertions",
      "Exploration. Every returned value, site label and result-file entry is compared with the dense expectation value; state, memory and directory are compared before and after. " + TENSOR + ".",
      {"values": 20000, "nonzero_values": 10000, "files": 4000, "tails": 500, "four_groups_many": 60, "disk_runs": 1000}, TA)
check("P19", [run("p19_lanczos.cc", ["trel", "tdbg"], 1400, 30000)],
      "effective one-site, two-site and matrix-form problems of random states and Hermitian Hamiltonians (one-dimensional and degenerate sectors included), start vectors of five kinds (the state, random, eigenvectors, few eigenvectors, one element) and any norm, tolerances 1e-14 to 1e-3, limits 1 to 200; non-trivial: a nonempty sector; distinct by problem, start and energy",
      "runtime monitoring: differential oracle (dense effective Hamiltonian and reorthogonalized Krylov spaces), live-tensor accounting, under ASan/UBSan and library assertions",
      "Exploration. Norm, energy of the vector, bounds, Krylov-optimal energy for the stated number of vectors, reason for stopping, convergence and tensors alive are observed for every solve. " + TENSOR + ".",
      {"solves": 5000, "krylov_energies": 5000, "invariant_subspaces": 2000, "one_dimensional": 500, "early_stops": 100, "converged": 250, "combined": 300, "clean_solves": 1000, "exact_zero_residuals": 200, "continued": 700}, TA)
check("P20", [run("p20_expmv.cc", ["trel", "tdbg"], 1400, 30000)],
      "effective one- and two-site problems of random complex states and Hermitian Hamiltonians, start vectors of five kinds and any norm, steps 1e-3 to 2 of either sign and zero, tolerances 1e-14 to 1e-3, limits 1 to 200; non-trivial: a nonempty sector; distinct by problem, start and step",
      "runtime monitoring: differential oracle (dense matrix exponential and reorthogonalized Krylov spaces), live-tensor accounting, under ASan/UBSan and library assertions",
      "Exploration. Norm, distance to the exact evolution and to the Krylov result for the stated number of vectors, reason for stopping and tensors alive are observed for every solve. " + TENSOR + ".",
      {"solves": 5000, "exact_results": 3000, "krylov_results": 4000, "invariant_subspaces": 2000, "early_stops": 200, "clean_solves": 1000, "exact_zero_residuals": 200, "continued": 450}, TA)
check("P21", [run("p21_sweeps.cc", ["trel", "tdbg"], 700, 12000)],
      "histories of one to three runs (single-site, two-site, noisy two-site; continued with or without environments or with another method) on random chains of 3 to 6 sites, random Hamiltonians, norms, centre positions, bond limits, cutoffs, noise schedules and solver limits; non-trivial: a sector larger than one; distinct by history and energy",
      "runtime monitoring: invariants of the state on disk after every run against exact diagonalization, monotonicity monitor over the printed energies, live-tensor accounting, under ASan/UBSan and library assertions",
      "Exploration. After every run the tensors on disk are read back, contracted to a dense vector and compared with the returned energy, the exact spectrum of the sector, the start energy, the bond limit, charge and canonical form. " + TENSOR + ".",
      {"runs_two-site": 800, "runs_single-site": 500, "runs_noisy-two-site": 250, "energies_exact_state": 1500, "energies_truncated": 60, "exact_runs": 150, "restarts": 700, "noisy_runs": 400}, TA)

check("P18", [run("p18_mpo.cc", ["trel", "tdbg"], 1800, 20000)],
      "histories of 3 to 10 operations on finite operators over 2 to 5 random sites (generator-made Hermitian and general operators, arbitrary tensors), then a variational product from four kinds of guess, a square and an exponential; non-trivial: a nonzero operator; distinct by history",
      "runtime monitoring: differential oracle (dense matrices) after every operation, invariant monitor on canonical types and centre, live-tensor accounting, under ASan/UBSan and library assertions",
      "Exploration. After every operation the operator is contracted to a dense matrix and compared with the same operation on matrices; truncations against the singular values of the dense matrix at every bond. " + TENSOR + ".",
      {"op_centralize": 800, "op_product": 250, "op_simple-product": 80, "op_scale": 500, "op_add": 250, "op_add-in-place": 250, "op_load": 300, "truncations": 400, "lossy_truncations": 150, "variational_exact": 250, "variational_projected": 300, "squares": 200, "exponentials": 300, "exponentials_compressed": 50, "exponentials_limited": 100, "variational_settled": 200}, TA)
check("P22", [run("p22_dmrg.cc", ["trel", "tdbg"], 560, 8000)],
      "histories of one to three runs of the matrix-form driver on random chains of 3 to 6 sites, each in a process of its own; in three runs of four one or two stop signals are raised at an output event chosen over the whole run; non-trivial: a sector larger than one; distinct by history and energy",
      "runtime monitoring: signals injected at chosen output events of the real driver, invariants of the state on disk against exact diagonalization afterwards, monitor on sweeps and updates made after the signal, under ASan/UBSan and library assertions",
      "Exploration. A rehearsal counts the output events of the very same run; the signal is then raised at one of them. The tensors on disk are read back, contracted and checked for energy, norm, charge, canonical form and bonds. Signals between two output events are not tried. " + TENSOR + ".",
      {"runs_plain": 150, "runs_graceful-stop": 200, "runs_urgent-stop": 250, "urgent_on_the_way_back": 20, "urgent_on_the_way_out": 20, "stopped_early": 150, "energies_exact_state": 500, "exact_runs": 30, "restarts": 300}, TA)
check("P23", [run("p23_tdvp.cc", ["trel", "tdbg"], 1200, 12000)],
      "one or two evolutions (continued from disk with the initial state kept) of random, full-rank and eigen-states on uniform chains of 3 to 6 sites under random Hermitian Hamiltonians, random operators of any charge, strings, steps of either sign, zero steps, bond limits, cutoffs and solver limits; non-trivial: an operated state that is not zero; distinct by history and final norm",
      "runtime monitoring: differential oracle (dense exponential) and conservation monitors on the states on disk, the returned correlations and the result file, live-tensor accounting, under ASan/UBSan and library assertions",
      "Exploration. States are read back from disk and compared with the exact evolution where the algorithm is exact, with the step error where the manifold is the whole space, and otherwise checked for conserved norm, energy and charge; every correlation at the first and last time, and at all times in exact runs, is recomputed densely. " + TENSOR + ".",
      {"runs": 700, "norms_kept": 600, "energies_kept": 600, "exact_evolutions": 80, "exact_eigenstates": 80, "step_error_evolutions": 80, "correlations_equal-time": 3000, "correlations_final": 2500, "correlations_during": 800, "truncated_runs": 50, "continued": 120, "result_files": 700}, TA)
check("P25", [run("p25_reports.cc", ["trel", "tdbg"], 3000, 20000)],
      "one or two runs (two-site, single-site, noisy two-site, matrix-form; every eighth case a time evolution) on random chains of 3 to 6 sites, random Hamiltonians, limits, cutoffs and noise schedules, continued with or without environments; non-trivial: at least one report; distinct by history and energy",
      "runtime monitoring: online checker attached to the log stream, which runs inside the driver at every report and examines the half-updated state in memory and on disk, under ASan/UBSan and library assertions",
      "Exploration. At every report of the tensor-form sweeps the state (tensors in memory first, else from disk) is contracted to a dense vector and its energy, norm, Schmidt values, bond, charge and canonical form compared with the report; the order of reports is compared with the sweep pattern. The matrix form and time evolution keep their state to themselves, so there the last report is compared with the state on disk. " + TENSOR + ".",
      {"reports": 15000, "updates_judged": 8000, "noisy_updates": 1500, "entropies_nonzero": 2500, "truncated_updates": 150, "narrow_ranges": 200, "runs_matrix-form": 250, "runs_single-site": 300, "evolution_cases": 150, "stated_parameters": 4000}, TA)
check("P24", [run("p24_mpi.cc", ["trel", "tdbg"], 1600, 20000), run("p24_mpi.cc", ["ttsan"], 240, 4000)],
      "histories of one to three runs (plain and noisy two-site sweeps, matrix-form DMRG; continued, without environments, or with another method) and of one or two time evolutions, each on 1 to 6 ranks under its own random network schedule; non-trivial: more than one rank; distinct by problem and by the sequence of network events",
      "runtime monitoring: every rank is a process running the real code; an online checker of the MPI rules is the network and chooses the order of deliveries, matches of wildcard receives, eager or synchronous sends and delayed ranks; results checked against exact diagonalization, under ASan/UBSan and library assertions, noisy sweeps also under ThreadSanitizer",
      "Exploration. The network holds all messages and releases them in an order drawn from the seed, so schedules are reproducible; it reports deadlock, mismatched types, counts, roots and collectives, messages never received and ranks that died. Afterwards the tensors on disk are checked as for P21, P22 and P23. The threads of the noisy sweep that load environments and tensors run under ThreadSanitizer in a build of their own. " + TENSOR + ".",
      {"messages": 240000, "collectives": 120000, "wildcard_choices": 32000, "synchronous_messages": 96000, "parallel_runs_two-site": 800, "parallel_runs_noisy-two-site": 400, "parallel_runs_matrix-form": 640, "parallel_runs_evolution": 480, "parallel_runs_two-site-alone": 32, "energies_exact_state": 1600, "energies_truncated": 80, "exact_runs": 160, "restarts": 800, "correlations_final": 1600, "exact_evolutions": 64, "exact_eigenstates": 64, "orders": 1200, "entropies_reported": 900, "ranks_2": 240, "ranks_3": 240, "ranks_4": 240, "ranks_5": 240, "ranks_6": 240, "cases_watched_for_races": 200}, TA + ["MPI behaves as its standard says; ranks share one file system"])
check("P29", [run("p21_sweeps.cc", ["ttim"], 400, 6000), run("p22_dmrg.cc", ["ttim"], 160, 3000), run("p23_tdvp.cc", ["ttim"], 240, 4000), run("p24_mpi.cc", ["ttim"], 320, 6000), run("p25_reports.cc", ["ttim"], 320, 4000)],
      "the histories of P21 to P25, with the timing modes of the library switched on; non-trivial and distinct as there",
      "runtime monitoring: the oracles and monitors of P21 to P25 attached to timing builds, under ASan/UBSan",
      "Exploration. The timing modes compile other code into the drivers and the parallel solvers; every oracle of P21 to P25 judges those builds: states on disk, energies, signals, time evolution, network rules, and the printed reports. " + TENSOR + ".",
      {"runs_two-site": 200, "runs_single-site": 150, "runs_noisy-two-site": 100, "runs_matrix-form": 60, "runs_plain": 30, "exact_evolutions": 16, "messages": 20000, "parallel_runs_two-site": 60, "parallel_runs_noisy-two-site": 30, "parallel_runs_matrix-form": 50, "parallel_runs_evolution": 40, "updates_judged": 2000}, TA + ["MPI behaves as its standard says; ranks share one file system"])
check("P30", [run("p30_repro.cc", ["ttwin"], 3300, 60000)],
      "random runs of eleven kinds: two-site, noisy, single-site and matrix-form sweeps (one or two after each other), time evolution, Hamiltonian generation, measurements, algebra of operators (product, variational product, sum, truncation, exponential), initial states, truncation of a state, symbolic generation; over three symmetries and both element types; non-trivial: something was returned or written; distinct = digest of everything compared",
      "runtime monitoring: the same run in two processes that differ in unset memory, and once more in one of them; offline comparison of all it returned, wrote and reported",
      "Exploration. Each case runs in two processes: fresh heap memory, freed memory and the stack below hold different bytes, allocations have other sizes and addresses, local variables without an initialiser hold zeros in one program and a pattern in the other (-ftrivial-auto-var-init), and the directories have other names; the second process then runs another input of the same kind, and the case once more. Values, tensors, files and the reported numbers are compared bit for bit. A read of unset memory is seen only if it changes one of these. " + TENSOR + ".",
      {"values_compared": 200000, "files_compared": 16000, "runs_with_other_stack": 3000, **{"runs_" + k: 240 for k in ("two-site", "noisy", "single-site", "matrix-form", "evolution", "hamiltonian", "measurements", "operators", "initial-state", "truncation", "symbolic")}}, TA + ["the BLAS gives equal results for equal input (MKL_CBWR=COMPATIBLE)"])
