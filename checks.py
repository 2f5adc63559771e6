# Per-property configuration of the checks (see run.py)
ALL = ["MersenneTwister", "Matrix", "Mpi", "Concurrency", "ProgressIndicator", "MemResolv", "PsimagLite",
       "PsiBase64", "SpecialFunctions", "Io/TypeToH5", "TridiagonalMatrix", "PredicateSimple"]
AINUR = ["Ainur/AinurSpirit1", "Ainur/AinurConvert1"]
WRAPS = " ".join("-Wl,--wrap=%s_" % x for x in "dsyev ssyev zheev cheev zgeev dgetrf dgetri zgetrf zgetri sgetrf sgetri cgetrf cgetri dgesdd sgesdd zgesdd cgesdd dgesvd sgesvd zgesvd cgesvd dgemm sgemm zgemm cgemm".split())
MATRIX = ["Matrix", "PsimagLite", "MersenneTwister", "Concurrency", "Mpi", "PredicateSimple", "Io/TypeToH5"]
CHECKS = {}
CHECKS["C01"] = dict(
    runs=[dict(name="crs", flavor="asan", srcs=["C01/crs.cpp"], repo=ALL)],
    rule="Each case draws shapes 1..24, a sparsity pattern with empty rows/columns, integer or real values (real and complex), "
         "builds the matrix by one of eight constructions (slot by slot and row by row with SampleCRSMatrix included) and runs every public operation against a dense reference; "
         "contents scaled by 2^-200..2^200 and products with up to 300 rows and 65000 entries must be exact; predicates and equality with entries in any order and stored negligible ones; "
         "non-trivial = a generated matrix pair (hash of case) actually compared.",
    must_count=["matrices compared", "structures checked", "exact results", "large results", "predicates compared"])
CHECKS["C02"] = dict(
    runs=[dict(name="dense", flavor="asan", srcs=["C02/*.cpp"], repo=MATRIX)],
    rule="Each case draws shapes 0..12, real or complex contents (integers or reals) and evaluates every expression form, including with the "
         "destination among the operands or already holding other contents, against an independent reference matrix; printed forms (Mathematica, symbolic, non-zero entries) are parsed back; contents scaled by 2^-200..2^200 must give exact results; non-trivial = distinct operand contents compared.",
    must_count=["exact results", "texts read into used matrices", "large matrices checked", "matrices compared", "vectors compared"])
CHECKS["C03"] = dict(
    runs=[dict(name="fact", flavor="asan", srcs=["C03/fact.cpp", "../lib/lapackmon.cpp"], repo=MATRIX, libs=WRAPS)],
    rule="Each case draws a matrix (random, degenerate, diagonal, zero, integer, rank-deficient, scaled by 1e-7..1e7; sizes 1..20, 1..40 thorough; four element types), "
         "factorizes it and checks the defining equations and, for Hermitian input, the spectrum against an independent Jacobi solver; every LAPACK array argument is checked "
         "against its documented extent. non-trivial = distinct input matrices.",
    must_count=["eigenpairs checked", "general eigenvectors checked", "inverses checked", "singular values checked", "exponentials checked", "refusals checked", "LAPACK calls monitored"])
CHECKS["C04"] = dict(
    runs=[dict(name="gemmr", flavor="asan", srcs=["C04/gemmr.cpp", "../lib/lapackmon.cpp"], repo=MATRIX, libs=WRAPS)],
    rule="Each case draws m,n 0..60, k 0..12, block size 0..12, 1..9 threads, six transposition letters per side, padded leading dimensions, alpha/beta (0, 1, -1, random), "
         "compares C with a triple-loop reference, checks the padding and the operands are untouched (NaN in C when beta is zero), and checks the extent of every array handed to GEMM; "
         "non-trivial = distinct non-empty problem.",
    must_count=["products compared", "products blocked", "products threaded", "GEMM calls monitored"])
PW = "-Wl,--wrap=pthread_create"
_ev = "Event log kept by the tasks (start/end, task, thread number) judged after each loop: every index exactly once, thread numbers below the configured count and never shared by overlapping tasks, nothing unfinished or late at return, plain effects visible; random task delays and delays after each pthread_create; "
CHECKS["C05"] = dict(
    runs=[dict(name="loops", flavor="asan", srcs=["C05/loops.cpp", "C05/serial.cpp", "C05/wrap.cpp"], repo=MATRIX, libs=PW),
          dict(name="loops_tsan", flavor="tsan", srcs=["C05/loops.cpp", "C05/serial.cpp", "C05/wrap.cpp"], repo=MATRIX, libs=PW),
          dict(name="omp", flavor="asan", srcs=["C05/omp.cpp", "C05/wrap.cpp"], repo=MATRIX, libs=PW + " -fopenmp", defs="-fopenmp", tag="omp", env={"OMP_NUM_THREADS": "8"}),
          dict(name="nothreads", flavor="asan", srcs=["C05/nothreads.cpp", "C05/wrap.cpp"], repo=MATRIX, libs=PW, defs="-UUSE_PTHREADS", tag="nothr")],
    rule=_ev + "affinity: with affinities set every thread runs on a processor of its own and the caller's set stays. non-trivial = distinct observed order of start/end events of a loop with at least two tasks. Run under ASan+UBSan and again under TSan.",
    technique="runtime monitoring: offline checker over task event logs with injected delays, under ASan+UBSan and TSan",
    must_count=["task events checked", "loops checked", "reductions checked", "serial refusals checked", "serial settings checked"])
CHECKS["C06"] = dict(
    runs=[dict(name="races", flavor="tsan", srcs=["C06/races.cpp", "C05/wrap.cpp"], repo=ALL, libs=PW)],
    rule="Each case runs parallel loops (all balancers, nested, repeated, started by unrelated threads, with affinities), threaded multiplies, the library mutex and shared services with random "
         "task delays and thread-start delays under ThreadSanitizer; results and mutual exclusion are asserted too. non-trivial = distinct workload/delay plan.",
    technique="runtime monitoring: ThreadSanitizer over stress workloads with injected delays, plus mutual-exclusion and result monitors",
    must_count=["tasks run under TSan", "threads created under TSan", "critical sections observed"])
CHECKS["C07"] = dict(
    runs=[dict(name="lb", flavor="asan", srcs=["C07/lb.cpp"], repo=MATRIX)],
    rule="Each case draws tasks 0..1200 (5000 thorough), threads 1..200 and seven weight shapes, enumerates every thread's list and checks the partition, the addressing and the load bounds; "
         "non-trivial = distinct (tasks, threads, weights) with at least one task.",
    must_count=["assignments checked", "weighted balances checked"])
CHECKS["C08"] = dict(
    runs=[dict(name="lanczos", flavor="asan", srcs=["C08/lanczos.cpp"], repo=ALL)],
    rule="Each case draws a Hermitian operator (random, chain, diagonal, clustered, degenerate, constant, two-level, low rank; rank 1..36, 60 thorough), a random start, steps, tolerance, options, "
         "solves it and compares with an independent Jacobi diagonalization, the residual, the orthonormality of the basis, V'HV=T and the count of operator applications; chains of 60..260 sites (500 thorough) against their known spectrum; non-trivial = distinct operator.",
    must_count=["ground states checked", "excited states checked", "projections checked", "minimum steps checked", "long chains solved", "tridiagonal spectra checked", "refusals checked"])
CHECKS["C09"] = dict(
    runs=[dict(name="spectral", flavor="asan", srcs=["C09/spectral.cpp"], repo=ALL)],
    rule="Each case draws tridiagonal coefficients (with zero couplings, one element), weights, signs, offsets, grids (exact and inexact steps, shorter than a step, Matsubara) and compares with the fraction's "
         "own recursion; collections and single fractions are written, reloaded and compared again; Chebyshev polynomials, kernels and moments against cos(n acos x) and exact diagonalization; non-trivial = distinct input.",
    must_count=["resolvent values checked", "grid points checked", "collections reloaded", "fractions reloaded", "polynomials checked", "kernel values checked", "kernels reloaded", "moments checked", "plots into given room", "empty collections refused"])
CHECKS["C10"] = dict(
    runs=[dict(name="ioNg", flavor="asan", srcs=["C10/ioNg.cpp"], repo=ALL)],
    rule="Each case draws a document of 1..14 named values of 43 kinds (with extreme values, empty ones, names extending each other, nested groups), writes it (in this or another process), reads everything back twice in "
         "other orders into used destinations and compares bit for bit, with reads of unknown names and as wrong types in between that must fail; non-trivial = distinct document.",
    must_count=["values read back", "missing names refused", "wrong types refused", "boolean vectors", "foreign files refused", "files written by another process"])
CHECKS["C11"] = dict(
    runs=[dict(name="sessions", flavor="asan", srcs=["C11/sessions.cpp", "C11/crash.cpp"], repo=ALL, libs="-ldl")],
    rule="sessions: random histories of open (fresh, exclusive, append, with a new or the same object), write, write again, overwrite (same or other kind or length), flush and close; after every close "
         "a reader compares every name with the value last written. crash: a history is replayed in a process killed at a chosen write to the file (before it, or after part of its pages), then the file must be "
         "rejected, or give every flushed value complete and no value that was never written. non-trivial = distinct history; crash points are counted.",
    technique="runtime monitoring: model of the file's contents against reads after every session, and fault injection (process killed at the k-th write) under ASan+UBSan",
    must_count=["values read back", "overwrites", "writes of a name that exists", "truncated names gone", "crash points", "interrupted files rejected", "interrupted files accepted with flushed values", "flushed values read after a crash"])
CHECKS["C12"] = dict(
    runs=[dict(name="text", flavor="asan", srcs=["C12/text.cpp"], repo=ALL)],
    rule="history: a file of 1..25 labelled values (numbers, strings, vectors, matrices, sparse matrices, stacks, maps; labels repeated and extending each other; several appending sessions; 2..17 digits) is read in a "
         "random order by occurrence, last instance, count and rewind, and compared with a model that knows the reader's position; unknown labels, missing occurrences and other kinds must be refused. "
         "cut: a file cut after any line must not yield the value cut. non-trivial = distinct document.",
    technique="runtime monitoring: model-based checker of read histories under ASan+UBSan",
    must_count=["streams compared", "values read back", "last instances", "counts", "missing labels refused", "missing occurrences refused", "wrong kinds refused", "cut values refused", "unopenable files refused", "append sessions"])
CHECKS["C13"] = dict(
    runs=[dict(name="input", flavor="asan", srcs=["C13/input.cpp"], repo=ALL + AINUR, env={"ASAN_OPTIONS": "allocator_may_return_null=1"})],
    rule="wellformed: an input of labels (text, numbers, vectors over several lines, real and complex matrices, maps, repeated labels, one-line macros) with random spacing, blank lines, comments and no final "
         "newline, from a file or a string, is read in random order and as several types and compared with a model. malformed: 14 kinds of error must be reported, naming the label, line or text. mutated: random "
         "byte edits must end in values or exceptions under ASan+UBSan. ainur/options: the second language and option lists. non-trivial = distinct text.",
    technique="runtime monitoring: model-based oracle and mutation fuzzing under ASan+UBSan",
    must_count=["values read", "errors observed", "maps read", "repeated labels read", "values of mutated inputs read", "errors in mutated inputs", "scripts read", "options checked"])

CHECKS["C14"] = dict(
    runs=[dict(name="ainur", flavor="asan", srcs=["C14/ainur.cpp"], repo=ALL + AINUR, env={"ASAN_OPTIONS": "allocator_may_return_null=1"})],
    rule="wellformed: a random script (declarations, assignments, reassignments, macros in terms of macros, vectors, complex vectors, matrices, ellipses with a multiplicity or filling the reader's vector) with random spacing, comments and statement order is parsed and every "
         "variable is read as its type, and through a prefix, and compared with the model. function: tables in files and calls of them. malformed: one of 16 kinds of error must be reported by the parser or at the read. "
         "mutated: random edits must end in values or exceptions under ASan+UBSan. non-trivial = distinct text.",
    technique="runtime monitoring: model-based oracle and mutation fuzzing under ASan+UBSan",
    must_count=["values read", "vectors filled", "vectors of sizes read", "errors observed", "scripts read", "function values", "mutated scripts parsed", "mutated scripts refused", "values of mutated scripts read", "unused lists checked"])

CHECKS["C15"] = dict(
    runs=[dict(name="ast", flavor="asan", srcs=["C15/ast.cpp"], repo=ALL)],
    rule="random expressions of 1 to 30 tokens over all operators and functions, in real, complex and integer arithmetic, are evaluated and compared with an independent evaluator (relative tolerance 1e-9); malformed families "
         "remove, add or replace tokens and judge acceptance too. inputs: trees with variables are evaluated for several values. non-trivial = distinct judged expression with an operator.",
    technique="runtime monitoring: independent evaluator as oracle, under ASan+UBSan",
    must_count=["expressions evaluated", "malformed expressions refused", "expressions with inputs evaluated"])
CHECKS["C16"] = dict(
    runs=[dict(name="predicates", flavor="asan", srcs=["C16/predicates.cpp"], repo=ALL)],
    rule="random formulas (1-4 alternatives of 1-3 comparisons, 7 operators, expressions on both sides, 1-4 variables whose names are parts of each other or of functions, options items, other separators) are asked for int, "
         "unsigned and real values and compared with direct evaluation. malformed: 40 malformed predicates must be refused. mutated: arbitrary text. non-trivial = distinct formula and values.",
    technique="runtime monitoring: independent evaluator as oracle, under ASan+UBSan",
    must_count=["true formulas", "false formulas", "errors in formulas", "options routed", "comparisons", "malformed predicates refused", "errors in mutated predicates", "mutated predicates evaluated"])
CHECKS["C17"] = dict(
    runs=[dict(name="specs", flavor="asan", srcs=["C17/specs.cpp"], repo=ALL)],
    rule="canonical: random sums of products of operators, real, imaginary and parenthesized scalars are evaluated with formal (non-commuting) operators, into fresh and used results, and compared word by word with an independent "
         "parser and evaluator; mutated expressions must be refused or mean what the parser says. label, site, braket: random and mutated specifications against regular-expression oracles. replace: label replacement. quasi: terms, scalars and their numbers of sums with parenthesized scalars. "
         "non-trivial = distinct accepted specification.",
    must_count=["expressions compared", "malformed expressions refused", "replacements", "labels decomposed", "labels refused", "sites extracted", "site numbers", "vectors decomposed", "vectors refused", "quasi canonical expressions checked"])
CHECKS["C18"] = dict(
    runs=[dict(name="text", flavor="asan", srcs=["C18/text.cpp"], repo=ALL)],
    rule="Random and adversarial strings (empty, separators only, repeated, arbitrary bytes with NUL and high bytes, numbers at the limits of their types) are split, replaced, decomposed, recognised and converted and compared with "
         "independent per-character and regular-expression oracles; base 64 against an independent coder, padded, unpadded, with tails, and through files. non-trivial = distinct string for which the function has something to do.",
    must_count=["strings split", "replacements", "names decomposed", "integers read", "reals read", "non-numbers refused", "conversions", "byte strings encoded", "files echoed"])
CHECKS["C19"] = dict(
    runs=[dict(name="order", flavor="asan", srcs=["C19/order.cpp"], repo=ALL)],
    rule="Sequences of reals, integers, large unsigned and strings (random, sorted, reversed, constant, periodic; 0..700 long, 5000 thorough) are sorted whole and in part and judged; all arrangements of multisets of up to 7 (8) elements "
         "against std::next_permutation; all decompositions against an independent enumeration; bit counts bit by bit; packing against arithmetic. non-trivial = distinct input with more than one element.",
    must_count=["sequences sorted", "arrangements visited", "decompositions listed", "words counted", "indices packed"])
CHECKS["C20"] = dict(
    runs=[dict(name="sparse", flavor="asan", srcs=["C20/sparse.cpp"], repo=ALL)],
    rule="Each case builds two vectors of 0..25 elements from a dense one, a chunk or entries (unordered, repeated, cancelling, tiny and large; real and complex) and compares every operation, sorted and unsorted, with the entries added up in a map; "
         "chunks and partitions that fit and that do not. non-trivial = distinct pair of vectors.",
    must_count=["vectors compared", "equalities checked", "chunks compared", "chunks refused", "partitions found", "partitions refused"])
CHECKS["C21"] = dict(
    runs=[dict(name="geometry", flavor="asan", srcs=["C21/geometry.cpp"], repo=ALL + AINUR)],
    rule="Each case draws a lattice of 1..32 sites (ten kinds, leg counts, distances, bath sites, boundary conditions, 1..3 orbitals, constant or per-bond values, 1..3 terms), writes it in the plain or the configuration language, "
         "builds the Geometry and compares every connection, direction, entry and value (all pairs of sites and orbitals) with the lattice's definition; translations, reflections, printed and saved matrices, "
         "block splittings, chain growth, fringes, momentum meshes and refusals of inconsistent input; rarely lattices of up to 160 sites. non-trivial = distinct input.",
    must_count=["bond values checked", "bonds checked", "terms checked", "translations checked", "reflections checked", "lattices printed", "splits checked", "splits refused", "growth values checked", "ladder growth values checked", "fringe sites checked", "fringe bonds checked", "meshes checked", "lattices written", "refusals checked"])
CHECKS["C22"] = dict(
    runs=[dict(name="random", flavor="asan", srcs=["C22/random.cpp"], repo=ALL, libs="-Wl,--wrap=getpid -Wl,--wrap=gettimeofday -Wl,--wrap=time")],
    rule="Several generators with random seeds (extremes included) are asked in turn, copied and seeded again, and every number is compared with the published algorithm (std::mt19937, minstd, the drand48 recurrence) over streams longer "
         "than the state; all ranks of 2..400 processes are compared pairwise; run identifiers for random process numbers and times (substituted at link time) against the shipped checker and a bit count; filled vectors are normalised. non-trivial = distinct seeds.",
    must_count=["numbers compared", "generators seeded again", "ranks compared", "vectors filled", "run ids checked", "run ids stored"])
CHECKS["C23"] = dict(
    runs=[dict(name="numeric", flavor="asan", srcs=["C23/numeric.cpp"], repo=ALL, defs="-DUSE_GSL", tag="gsl", libs="-lgsl -lgslcblas")],
    rule="roots: bisection of seven kinds of functions, with and without roots, brackets from 1e-3 to 200, tolerances 1e-12..1e-1 and few iterations (value, bracket, evaluations, when failure is allowed, as many iterations as it takes; values scaled by 1e-60..1e60). quadrature: functions with known "
         "antiderivatives, finite (both rules), with kinks and infinite ranges, against the requested error. special: the gamma function against Stirling's series and its recurrence, Ci against series. minimum: convex functions in 1..4 "
         "dimensions by both methods (never worse, gradient within tolerance, status). spline: nodes, slopes from both sides, lines, the definition's slopes. stepping: vectors and matrices against an independent integrator, steps up to 1.5 and 140000 of them, observed order. "
         "prediction: recurrences of order 1..5 whose data determine them. fermi: identities. Inputs outside the domains must be refused. non-trivial = distinct input.",
    must_count=["roots found", "iteration limits checked", "long runs checked", "brackets refused", "failures reported", "integrals checked", "infinite ranges", "special values checked", "minima reached", "searches cut short", "splines checked", "spline values checked", "slopes compared",
                "steps compared", "orders measured", "points predicted", "undetermined data refused", "identities checked"])

CHECKS["C24"] = dict(
    runs=[dict(name="svd", flavor="asan", srcs=["C24/svd.cpp", "C05/wrap.cpp", "../lib/lapackmon.cpp"], repo=MATRIX, libs=PW + " " + WRAPS),
          dict(name="svd_tsan", flavor="tsan", srcs=["C24/svd.cpp", "C05/wrap.cpp", "../lib/lapackmon.cpp"], repo=MATRIX, libs=PW + " " + WRAPS, defs="-DVH_TSAN", tag="tsanmon")],
    rule="Each case draws 0..14 matrix tasks (decompositions by both backends and by the first with the second as fallback, diagonalizations, inverses, products, exponentials, rotations, outer products; four element types; shared and equal "
         "inputs, NaN) with delays, runs them one after the other, judges the results by their defining equations, and then runs them by six kinds of parallel loop (both parallelizers, both balancers, task orders, pieces, repetitions, nested) with "
         "1..12 threads, delays after each pthread_create and failures injected into the first backend; results must be identical to the serial ones bit by bit. Run under ASan+UBSan with the LAPACK argument monitor, and under TSan, which is told "
         "what the uninstrumented LAPACK routines write. non-trivial = distinct set of tasks with two or more threads and tasks.",
    technique="runtime monitoring: serial run as oracle for parallel runs with injected delays and faults, under ASan+UBSan and TSan",
    must_count=["parallel results compared", "decompositions judged", "products judged", "fallbacks taken", "LAPACK calls monitored", "threads created"])

CHECKS["C25"] = dict(
    script="programs",
    rule="Every program the build produces (and the tutorial program) is compiled from the current tree with ASan+UBSan, and those that start threads with TSan too, and run on random command lines and input files, well-formed and malformed; "
         "exit status and everything printed are compared with a reference computed independently (spectra by Jacobi rotations, expression values, task sums, drand48 streams, continued fractions, Chebyshev sums, linear prediction). "
         "non-trivial = distinct command line with its input files.",
    technique="runtime monitoring: sanitized runs of the real programs on generated command lines with an independent oracle for what they print",
    must_count=["runs.asan", "runs.tsan", "valid command lines", "malformed inputs refused", "damaged files", "lines printed"])
CHECKS["C26"] = dict(
    runs=[dict(name="config", flavor="asan", srcs=["C26/config.cpp"], repo=ALL + AINUR, libs=PW)],
    rule="parameters: random subsets of the ten solver parameters, with and without indices, for other prefixes too, are read from the plain and the configuration language and from a recording input, for indices -1..12, and compared with the "
         "precedence rule. options: registered and unknown options in three modes (what is set, refused, warned about). disabled: label sets. settings: the settings passed at start are queried, and then observed inside the tasks of five kinds of "
         "loop: threads taking part, their stack size and the processors they are bound to. nodes: loops over nodes. non-trivial = distinct configuration.",
    technique="runtime monitoring: model of the precedence rules and observation of the settings in force inside the threads, under ASan+UBSan",
    must_count=["parameters compared", "exact index", "smaller index", "without index", "defaults", "unknown options refused", "unknown options reported", "options queried", "labels queried", "settings queried", "stacks observed",
                "bindings observed", "loops observed", "node loops"])

CHECKS["C27"] = dict(
    runs=[dict(name="report", flavor="asan", srcs=["C27/report.cpp"], repo=ALL, libs=PW)],
    rule="progress: random sequences of reports by one to four indicators (main and other threads, reused message streams, three kinds of report, buffer toggled) to streams with random formats; every byte, time stamp and the stream's format afterwards are judged. "
         "profiling, status files, times, redirection of standard output (in a forked child: what reached the file and the terminal), line markers, run records, command line, vendor, environment, holders and memory limits against models. "
         "non-trivial = distinct sequence of reports or distinct record.",
    technique="runtime monitoring: byte-for-byte judgement of everything reported against a model of what was said, under ASan+UBSan",
    must_count=["reports judged", "reused message streams", "silent reports", "buffered reports", "memory reports", "clocks", "entries compared", "times compared", "clocks read", "lines redirected", "markers found", "markers absent",
                "applications", "run records", "holders", "limits set"])

CHECKS["C28"] = dict(
    runs=[dict(name="wrappers", flavor="asan", srcs=["C28/wrappers.cpp", "../lib/lapackmon.cpp"], repo=[], libs=WRAPS)],
    rule="Every wrapper of BLAS.h (levels 1 to 3; full, band and packed storage) and LAPACK.h is called in every element type it is overloaded for, with random sizes including zero, options in both cases of letter, "
         "leading dimensions beyond the minimum, positive and negative strides, and zero and unit factors; the storage afterwards is compared element by element with the defining formula in long double (solvers and factorizations by substitution), "
         "everything outside the result (other triangle, padding, guards, inputs) must be unchanged. non-trivial = distinct call.",
    technique="runtime monitoring: defining formula as oracle, guarded storage and a monitor of the arguments that reach LAPACK, under ASan+UBSan",
    must_count=["results compared", "factorizations judged", "inverses judged", "decompositions judged", "spectra judged", "singular matrices reported"])

CHECKS["C29"] = dict(
    script="config",
    rule="tags: random configuration files (one to three, read in order) over every mode, block and one-line contents, spellings of spaces, every special character with its escape, inclusions, deletions and removals, well-formed and malformed, are read by the real "
         "scripts; the tags and their full resolution are compared with a model of the documented language. makefile: the makefile written for random drivers, libraries and additions is run by make with a recording compiler: commands, flags, libraries, "
         "rebuilds after a change and what clean removes. command: the printing command, list of flavors, files in force. non-trivial = distinct files with at least one tag.",
    technique="runtime monitoring: executions of the real configuration scripts and of make on their output, with a recording stand-in for the compiler, against a model of the documented language",
    must_count=["tags compared", "tags resolved", "inclusions resolved", "files refused", "unresolvable tags refused", "flavors resolved", "commands judged", "rebuilds judged", "makefiles judged", "tags printed", "commands run"])
CHECKS["C30"] = dict(
    script="tools",
    rule="manual: random sources with documented pieces (texts, copies of other pieces, prototypes, functions, marked parts, blocks of code, continued texts) and a random manual that places them are assembled by the real script and compared line by line "
         "(blank lines aside) with the pieces; missing, circular, repeated and unclosed pieces have to be refused. shipped: the pieces marked in the sources as shipped, against those read with one pattern for each kind of piece. doxygen: the same for the tool that takes pieces from doxygen's output. lorentz, inverse: broadened spectra against the formula, and peaks recovered from "
         "them. tabs, colors, hosts: text tools against models, including that files are left alone when refused. non-trivial = distinct input.",
    technique="runtime monitoring: executions of the real scripts on generated inputs with an independent oracle for everything they write",
    must_count=["manuals compared", "manuals refused", "pieces placed", "shipped pieces compared", "documents compared", "documents refused", "points compared", "spectra refused", "peaks recovered", "texts compared", "texts refused", "lines coloured", "node lists compared", "node lists refused"])
