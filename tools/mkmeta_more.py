"""Properties C06 and up; see mkmeta.py."""
MORE = [
(("C06", "Sparse kernels give the same product under every OpenMP schedule",
  "For every sparse operator (empty rows, any sizes), team of threads and interleaving of their memory accesses, the compiled spin-up, spin-down and full-space kernels add exactly the operator times the input vector to the output vector: no lost update, nothing written outside the output, input vector and operator unchanged. A storage layout the kernels do not handle is refused or handled correctly, never misread.",
  ["schedules", "inputs", "configurations"],
  "all operators, sizes, team sizes, loop chunkings and access interleavings",
  "the tests run small operators on whatever schedule the machine happens to give",
  ["edpyt/psparse.pyx", "edpyt/cs_gaxpy.c", "edpyt/ham_hopping.py", "edpyt/ham_non_local.py"],
  [("parallel loops over blocks and rows", "UPmultiply, DWmultiply, Multiply"), ("compiled row kernels", "cs_gaxpy.c")],
  ["output vector after the call", "memory around the output"]), {}),
(("C07", "Continued fractions give the same value under every OpenMP schedule",
  "For every depth, set of coefficients, set of frequencies (or one scalar frequency), team of threads and interleaving of their memory accesses, the compiled continued fraction returns the value of the fraction at each frequency; arguments are unchanged, and results handed out earlier are not changed by later calls.",
  ["schedules", "inputs", "configurations"],
  "all depths, coefficients, frequencies, team sizes and access interleavings",
  "the one test uses one input on whatever schedule the machine happens to give",
  ["edpyt/continued_fraction.pyx"], [("parallel loop over frequencies with per-frequency accumulators", "continued_fraction")],
  ["returned values", "argument arrays"]), {}),
(("C08", "Many-body Hamiltonian assembly is exact, repeatable and leaves its inputs alone",
  "For every one-body matrix (spin dependent or not), interaction (local, density-density, exchange and pair hopping, with or without the Hartree-Fock shift, chemical potential and reference charges in the settings) and particle or spin sector, the assembled operators represent exactly the second-quantised Hamiltonian, as a dense matrix and as a product. Assembly may be repeated and run from several client threads at once with the same result; the caller's matrices (data and flags) and the settings stay as they were; a failed allocation or interrupt inside it reaches the caller rather than silently dropping matrix elements, and a later call is unaffected.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all models, sectors, settings, client interleavings, fault positions",
  "no test compares the matrix with an independent one for general models, or fails half-way",
  ["edpyt/build_mb_ham.py", "edpyt/ham_local.py", "edpyt/ham_hopping.py", "edpyt/ham_non_local.py", "edpyt/shared.py", "edpyt/operators.py"],
  [("operator list per sector", "build_mb_ham"), ("skipping forbidden excitations", "build_ham_non_local"), ("parallel diagonal", "build_ham_local")],
  ["dense matrix and product", "caller's arrays and flags, settings"], [("params", "Hamiltonian settings", "shared.params")]),
 dict(note="Hopping terms in the N-symmetry sectors are documented as not implemented by the repository and are left out of that reference. Seeded search, not a proof; trusts the stand-ins listed in the evidence file.")),
(("C09", "ARPACK driver serves concurrent callers, failing operators and error codes",
  "Any number of client threads may solve eigenproblems through the driver at once: every call that returns gives orthonormal eigenpairs of its own matrix, the lowest ones asked for (fewer only when the iteration limit was reached), and results handed out earlier stay valid. An operator that raises, an interrupt, a failed allocation or an error code of the library is reported to that caller and leaves the driver usable for everyone else; a caller's start vector is not changed.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "all matrices, numbers of eigenvalues, client interleavings, nested calls, operator failures, library error codes and iteration limits",
  "tests solve one matrix at a time and never see a failure",
  ["edpyt/eigh_arpack.py"], [("reverse-communication loop", "ArpackParams.iterate, eigsh"), ("extraction of eigenpairs", "ArpackParams.extract"), ("lock around the library", "eigsh")],
  ["eigenpairs", "exceptions", "whether another caller can proceed"]), {}),
(("C10", "C bath fit: other callers, refused memory, earlier fits do not change results",
  "A fit of a discrete bath by the compiled library gives the same result whether it runs alone, in a process that has already made other fits, or while other threads fit other baths; it never returns parameters that fit worse than the start and reports the misfit of what it returns; it neither reads uninitialised or freed memory nor writes outside its blocks, and leaves no memory or lock behind. When an allocation is refused the program ends with a message (the library's documented behaviour), never with a wrong result. The initial bath has the documented energies for every number of sites, and the Python wrappers hand the library exactly the caller's data, whatever their layout.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "all targets, bath sizes, histories of calls, client interleavings, positions of refused allocations",
  "C tests fit one target once on an idle heap",
  ["edpyt_backend/fit.c", "edpyt_backend/fit_wrap.py", "edpyt/fit_cffi.py", "edpyt/fit_cg.py"],
  [("global work arrays and their lock", "edpyt_backend/fit.c"), ("conjugate gradient and line search", "frprmn, linmin, dbrent"), ("array hand-over", "fit_wrap.py, fit_cffi.py")],
  ["fitted parameters, misfit, iteration count", "heap and locks after the call", "exit message"]), {}),
(("C11", "Green's functions and occupations leave the shared solved spectrum undisturbed",
  "Any number of clients may ask one solved (complete, screened or truncated) spectrum for local Green's functions - by Lanczos in either representation, electron and hole parts together or apart, or exactly - and for occupations, in any order and interleaving: every answer is the thermal average over the states the spectrum holds, for every site, spin, temperature and frequency, and the spectrum (sectors, states, vectors), the Hamiltonian matrices and earlier answers stay exactly as they were. A query that fails leaves the spectrum as it was and can be repeated.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all models including degenerate ones, spectra, query sequences, client interleavings, fault positions",
  "tests build one Green's function of one model once and never look at the spectrum afterwards",
  ["edpyt/gf_lanczos.py", "edpyt/gf_exact.py", "edpyt/observs.py", "edpyt/lanczos.py", "edpyt/tridiag.py", "edpyt/espace.py"],
  [("excitation of every kept state", "build_gf_lanczos, build_gf_exact"), ("projection between sectors", "project_up, project_dw, project_exact_up, project_exact_dw"), ("representations", "continued_fraction, spectral")],
  ["value at any frequency", "spectrum after the query"], [("espace", "solved spectrum", "caller")]), {}),
(("C12", "DMFT loop: real convergence, exact self-consistency steps, failures propagate",
  "One DMFT iteration hands the impurity solver the given hybridisation with only its non-causal entries replaced, sets the impurity's chemical potential to the lattice's minus the on-site energy, makes the lattice self-energy the impurity's, and returns the new hybridisation of the self-consistency equation; the residual given to the mixing scheme is the weighted change of that step. The loop announces convergence exactly when the last step changed the hybridisation by less than the tolerance, never on a not-a-number, and gives up after the allowed number of iterations; with an occupancy goal it ends at the chemical potential that meets it. Failures inside a step reach the caller, never turn into convergence, and the loop can be restarted from what it stored; loops on separate objects in different threads do not influence each other.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all models, lattices (analytical or nano), mixing schemes, iteration limits, fault positions, restarts and client interleavings",
  "nothing in the test suite runs the loop",
  ["edpyt/dmft.py", "edpyt/nano_dmft.py", "edpyt/integrate_gf.py"],
  [("loop and stopping rule", "DMFT.__call__"), ("one step", "dmft_step, dmft_step_adjust, dmft_step_magnetic"), ("impurity model update", "Gfimp.fit, update, solve"), ("occupancy goal", "adjust_mu")],
  ["exception ending the loop", "hybridisation sequence", "impurity and lattice state"], [("delta", "hybridisation of the current iteration", "DMFT.delta"), ("it", "iteration counter", "DMFT.it")]), {}),
(("C13", "Matrix Green's functions share one solved spectrum without disturbing it",
  "The same as the local ones holds for the full site-resolved matrix of Green's functions, built by Lanczos (either representation, electron and hole parts together or apart) or exactly: every element, on or off the diagonal and in either triangle, is the thermal average over the states the spectrum holds, also when an excitation annihilates a state or states are degenerate; the spectrum, the matrices and earlier answers are not changed by building or evaluating, and a failed query can be repeated.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all models including degenerate ones, spectra, query sequences, client interleavings, fault positions",
  "nothing in the test suite covers these modules",
  ["edpyt/gf2_lanczos.py", "edpyt/gf2_exact.py", "edpyt/gf_lanczos.py", "edpyt/gf_exact.py"],
  [("sum excitation for off-diagonal elements", "build_gf_offdiag"), ("combination into elements", "_Gf2.evaluate, _Gf2.__getitem__")],
  ["elements at any frequency", "spectrum after the query"], [("espace", "solved spectrum", "caller")]), {}),
(("C15", "Solving, screening and re-sizing stay exact over rounds, threads and failures",
  "Over any number of rounds of solving all sectors, dropping states by their thermal weight and re-sizing the number of states for the next round, from any number of client threads and with failures in between: every sector asked for holds the lowest eigenpairs asked for, in order, and no other sector appears; the reported ground energy is the lowest one; screening keeps exactly the states whose Boltzmann weight exceeds the cut-off together with their vectors and is repeatable; the next round's numbers grow by one where all states survived, shrink by one otherwise, and stay between one and the sector dimension. The caller's matrices and numbers are not changed by solving.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all models, symmetries, state counts, temperatures, cut-offs, rounds, client interleavings, fault positions and ARPACK outcomes",
  "tests solve a sector once and never screen or re-size",
  ["edpyt/espace.py", "edpyt/sector.py", "edpyt/lookup.py", "edpyt/eigh_arpack.py"],
  [("sector loop", "build_espace, solve_sector"), ("thermal cut-off", "screen_espace, screen_transition"), ("next round's numbers", "adjust_neigsector")],
  ["spectrum object after every call", "numbers of states"]), {}),
(("C14", "DED sampling: draws, averages and generators are exact and private to the call",
  "A distributional-ED solve draws poles from the caller's density of states only through the caller's generator, maps each draw onto an impurity model whose non-interacting Green's function has exactly these poles, keeps precisely the draws whose ground state holds the same number of particles with and without interaction (per impurity for several impurities), and returns the mean over the kept draws of self-energy, occupations and entropy. This holds for extreme and repeated draws, any density of states, one or several impurities and any form of interaction, for solves running in several threads at once or one after the other, for a self-energy array the caller re-uses, and after a solve that failed half-way because generator, density, memory or the user interrupted it; the caller's arrays are unchanged.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all densities, generators, draws, interactions, numbers of poles and steps, client interleavings, fault positions",
  "the one sampling test needs MPI and a module that does not exist; nothing runs the solvers",
  ["edpyt/dedlib.py", "edpyt/gf_exact.py", "edpyt/espace.py"],
  [("inverse cumulative sampling", "RandomSampler"), ("pole representation to impurity model", "Gf0, Gfimp, build_siam, build_moam"), ("acceptance and averages", "siam_solve, moam_solve")],
  ["self-energy, occupations, entropy", "draws taken", "caller's arrays"], [("poles", "current sample", "RandomSampler.poles")]), {}),
(("C16", "Tunnelling rates are complete, conserving and leave spectrum and elements alone",
  "From one solved spectrum (complete or truncated, either symmetry), any number of clients may build transition elements for sequential and cotunnelling transport and evaluate rate and transition matrices from them for different temperatures, bias voltages and lead couplings, shared or private elements, in any order and interleaving: every matrix holds the documented golden-rule (first-order) or second-order expression for every allowed transition between the kept states, summed over spins and leads with both the electron and the hole path, at zero bias and for degenerate states too; columns of a rate matrix sum to zero; the stationary solution is the normalised population these rates leave unchanged, however small the rates are. A failure on the way reaches the caller instead of dropping a transition, and the query can be repeated. Spectrum, elements, couplings and earlier answers stay as they were.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all models, symmetries, truncations, sets of sectors, cut-offs, temperatures, voltages, couplings, client interleavings and fault positions",
  "the tests build one single-level model with a single worker and never compare rates with the expression they document",
  ["edpyt/sqtunneling.py", "edpyt/cotunneling.py", "edpyt/sqtnl.py", "edpyt/cotnl.py", "edpyt/rates.py", "edpyt/gf_exact.py"],
  [("transition elements per pair of sectors", "build_transition_elements, project_sector"), ("assembly of rates", "build_rate_matrix, build_transition_matrix, build_rate_and_transition_matrices"), ("populations", "rates.stationary_solution")],
  ["rate and transition matrices", "stationary populations", "spectrum and elements afterwards"], [("sigmadict, gfdict", "transition elements", "caller")]),
 dict(note="Judged with the 'approximate' and the numerical-quadrature evaluation of the second-order integral; the closed polygamma forms are left out (pure formulae). Matrices are not compared within 1e-3 of a pole of the expression. Seeded search, not a proof; trusts the stand-ins listed in the evidence file.")),
(("C17", "Python bath fit: private to the call, all or nothing, never worse than the start",
  "Fitting a bath with the Python fitter, directly or through an impurity model (spin-resolved or not), gives the same parameters however many other threads fit at once and whatever was fitted before; the parameters never fit worse than the start, and they improve it unless the start is already stationary; the caller's target and the memory around the parameters are unchanged. A fit that fails or is interrupted leaves the parameters either as they were or completely fitted, and can be repeated. After a fit, the impurity Hamiltonian, hybridisation and free Green's function all describe the same bath, and resetting gives the documented initial bath for every size and bandwidth.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "all targets, bath sizes, bandwidths, meshes, owners of the parameters, histories of fits, client interleavings, fault positions",
  "nothing in the test suite runs the Python fit",
  ["edpyt/fit_cg.py", "edpyt/dmft.py"],
  [("work arrays of the misfit and its gradient", "fit_cg.Delta, DDelta, dChi2"), ("assignment of the result", "fit_hybrid"), ("hand-over to the Hamiltonian", "Gfimp.fit, fit_update, SpinGfimp.fit")],
  ["bath parameters", "impurity Hamiltonian", "hybridisation at any frequency"], [("x", "bath parameters", "dmft.Delta.x")]),
 dict(note="The conjugate-gradient search is cut to 12 steps per fit in the simulation. Seeded search, not a proof; trusts the stand-ins listed in the evidence file.")),
(("C18", "Distributed DMFT loop: ranks go in lock-step, as one process would",
  "When the inequivalent impurities of a real-space DMFT calculation are distributed over ranks, every iteration gives each rank for its own sites the same bath input, new hybridisation and chemical potential as one process holding all impurities, all ranks hold the same chemical potential, and all ranks announce convergence (only when the change over all sites is below the tolerance) or give up at the same iteration: no rank is left waiting for one that has gone. This holds for every message timing, driver (own mixing, linear, Broyden), magnetic or not, with or without an occupancy goal. When a rank dies or a collective fails, no rank announces a result the others do not, and ranks restarted from what they had saved repeat the interrupted step exactly.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "all models, numbers of ranks and sites, message delays and completion orders, crash points, drivers",
  "no test runs the loop, and none uses more than one process",
  ["edpyt/dmft.py", "edpyt/nano_dmft.py"],
  [("collective self-energies and occupations", "nano_dmft._get_sigma_method, _get_occps_method"), ("convergence decision", "DMFT.__call__"), ("collective root search", "adjust_mu")],
  ["hybridisation and potential on every rank after every iteration", "end of every rank"], [("delta", "hybridisation", "DMFT.delta")]),
 dict(note="The serial loop it is compared with is judged by C12. With the scipy drivers only lock-step and the announcements are judged, since each rank mixes its own sites. Seeded search, not a proof; trusts the stand-ins listed in the evidence file.")),
]

PURE = "A pure function of its arguments: no concurrency, time, I/O, shared state or several parties for a schedule or a fault to act on. Deterministic simulation would only re-run one deterministic computation; "
NA_MORE = [
(("C21", "Closed second-order tunnelling integrals equal their defining integrals",
  "The polygamma expressions for elastic and inelastic cotunnelling integrals equal the principal-value integrals they replace, for all energies, temperatures and poles.",
  ["inputs"], "all energies, temperatures, pole positions", "the test prints values",
  ["edpyt/integrals.py", "edpyt/cotunneling.py"], [("polygamma forms", "integrals.I1, I2, Gamma2, Gamma4")], ["value of the integral"]),
 dict(na=PURE + "symbolic or interval methods on the formula are what decides it. C16 judges everything around it with the two other evaluations of the integral.")),
(("C22", "Fermi-function expansion integrates every causal function to its accuracy",
  "The continued-fraction poles and residues of the Fermi function integrate any causal Green's function with spectral weight inside the expansion radius to the stated accuracy.",
  ["inputs"], "all Green's functions, temperatures, numbers of poles", "one semicircular test function",
  ["edpyt/integrate_gf.py"], [("poles and residues", "zero_fermi"), ("sum over poles", "integrate_gf")], ["occupation"]),
 dict(na=PURE + "the error bound is a numerical-analysis question. Its use under concurrency and failure is part of C05, C12 and C18.")),
(("C23", "Basis enumeration and fermionic signs",
  "For every number of levels and particles the generated words are exactly the words with that many bits in ascending order, index maps invert them, and creation and annihilation signs satisfy the canonical anticommutation relations.",
  ["inputs"], "all numbers of levels, particles, words and levels", "a handful of words",
  ["edpyt/lookup.py", "edpyt/operators.py", "edpyt/sector.py"], [("enumeration and index maps", "sector.py, lookup.binsearch, get_state_index"), ("signs", "operators.cdg, c, fsgn, cdgc")], ["words, indices, signs"]),
 dict(na=PURE + "a bounded proof is the right tool. Wrong words or signs also show in C02, C04, C08, C11, C13, C15 and C16, whose references build the Fock space on their own.")),
(("C24", "Minimisation steps of the C fit follow Numerical Recipes",
  "Bracketing, Brent's method with derivatives and the Fletcher-Reeves update keep their textbook invariants (bracket encloses a minimum, superlinear convergence).",
  ["inputs"], "all one-dimensional sections of the misfit", "two fits are compared with stored numbers",
  ["edpyt_backend/dbrent.c", "edpyt_backend/mnbrak.c", "edpyt_backend/frprmn.c"], [("bracket update", "dbrent"), ("golden section", "mnbrak")], ["minimum returned"]),
 dict(na=PURE + "convergence order is a numerical-analysis question. That fits never get worse, are repeatable and private to their caller is C10.")),
]
