PATH = 'symbolic execution of the compiled IR, one run per feasible path of the screening comparisons (z3 decides feasibility); on each path z3 decides that omitted primitives are below the bound and that the result is the sum over the others'
MEM = 'symbolic execution of the compiled IR in a memory model with exact objects, read-only inputs and undefined initial contents; z3 decides dependence on undefined contents; counterexamples replayed under AddressSanitizer'
SHELL = 'symbolic execution of the compiled shell and shell-pair functions (all paths of sorting and maxima, feasibility by z3); z3 decides equality with the defining formulas; counterexamples replayed natively under AddressSanitizer'
N['A01'] = (SYM, 'all inputs (reals) for all quartets up to the bound on angular momentum; bounded contraction lengths; rounding excluded')
N['A02'] = (SYM, 'all inputs (reals) for all quartets and coordinates up to the bound on angular momentum; bounded contraction lengths; rounding excluded')
N['A03'] = (SYM, 'all inputs (reals) for the listed sets of generator options; quartets up to d (some f); rounding excluded')
N['A04'] = (SYM, 'all inputs (reals) of every lane for SSE to AVX-512, ASIMD and SVE (512 bits) builds on bounded numbers of primitives; rounding excluded')
N['A05'] = (SYM, 'all inputs (reals) for bounded numbers of shell pairs and primitives, including more than one batch on each side, and clips')
N['A06'] = (PATH, 'every outcome of every comparison with symbolic screening values and tolerance, for bounded numbers of primitives')
N['A07'] = (MEM, 'every access of the executed kernels for bounded batches and angular momenta; dependence on old contents is a two-run query')
N['A09'] = (SYM, 'all inputs (reals) for generators configured with GAMESS order, bounded angular momenta; derivative and run-time recurrence kernels are known to be wrong (KNOWN_FINDINGS); rounding excluded')
N['B01'] = (SHELL, 'all centers, exponents and coefficients (reals) for bounded lists of shell pairs; rounding excluded')
N['B02'] = (SHELL, 'bounded lists of shell pairs and histories of one structure; every access checked against the allocations')
N['B03'] = (SHELL, 'every order of the screening values of up to 4 (thorough: 6) primitive pairs')
N['B04'] = (SHELL, 'bounded numbers and sizes of parts; symbolic contents')
N['E01'] = ('symbolic execution of simint_init, the entry points and the dispatch table with symbolic angular momenta and derivative order; z3 decides which kernel each request reaches', 'every configuration MAXAM 0..7, MAXDER 0 and 1; all requests within them')
HIST = 'symbolic execution of the compiled shell functions in a memory model with exact objects; the operation at each step is a solver variable, states are joined over symbolic contents until no new state appears; counterexamples replayed under AddressSanitizer'
N['B05'] = (HIST, 'histories of any length over 2 to 3 shells or 1 to 2 shell-pair structures (fixpoint of reachable states), bounded sizes of each shell')
NORM = 'symbolic execution of the compiled normalisation; z3 proves the relative weights and the norm over symbolic exponents and coefficients (real powers as products of atoms); the constant is enclosed'
N['B06'] = (NORM, 'angular momentum 0 to 20, 1 to 3 primitives; all positive exponents, all coefficients (reals); rounding excluded')
ONE = 'symbolic execution of the compiled one-electron functions; each intermediate is identified and proved against Obara-Saika recurrences lemma by lemma by z3; counterexamples replayed natively against high-precision values'
N['C01'] = (ONE, 'all inputs (reals) for bounded angular momenta and numbers of primitives; rounding excluded')
N['C02'] = (ONE, 'all inputs (reals) for bounded angular momenta and numbers of primitives; rounding excluded')
N['C03'] = (ONE, 'all inputs (reals) for bounded angular momenta, numbers of primitives and charges; Boys function uninterpreted; rounding excluded')
N['B07'] = (SHELL.replace('shell and shell-pair functions (all paths of sorting and maxima, feasibility by z3)', 'screening functions on symbolic shells and integrals'), 'one pair of shells with up to 3 primitives and angular momenta up to (2 1); all centers, exponents, coefficients and integrals (reals); rounding excluded')
N['A08'] = ('symbolic execution of the compiled table accessors with a symbolic component, and of the recurrence routines on symbolic inputs; z3 decides every entry and every recurrence; counterexamples replayed natively', 'tables: every angular momentum to 18; routines: all inputs (reals) for bounded angular momenta and block counts; rounding excluded')
N['D01'] = ('symbolic execution of the compiled Boys function with symbolic arguments and table index; z3 bounds the error on each table cell and on the long range against Taylor coefficients of the exact function; counterexamples replayed natively', 'every argument and order to 29 (thorough: 31), every table cell; exact real arithmetic with the rounded table, a share of the limit left to rounding')
N['D02'] = ('symbolic execution of the compiled Boys function with a symbolic table index; z3 decides that every table access is inside the table for every argument and order', 'every non-negative argument, orders the library can request, listed vector builds')
N['E02'] = ('symbolic execution in a memory model in which all static memory and all inputs are read-only and thread-local objects start undefined; a write or a dependence found on any path is replayed natively under page protection', 'one call of every entry with bounded sizes; absence of writes to shared memory implies independence of schedule and history; interleavings inside libc excluded')
N['F01'] = ('z3 decides, over the symbols of the compiled sources each configuration builds, whether a reference can be undefined; symbolic execution of the dispatch with symbolic requests; symbolic execution of create.py with symbolic exit statuses of the generators', 'listed option sets of the generator (which is run, not encoded), every maximum angular momentum and derivative order of each; at most 2 failing generator calls')
NA = {'G01': 'interface declarations have no executable code to encode, and the only Fortran compiler here (gfortran) emits no representation that a solver front end reads'}
