import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({"observe_at":observe} if observe else {}),hook_needed=None)))

p("C01","Sparse matrix operations agree with the dense matrix they represent",
 "Every way of building, transforming or combining compressed-row sparse matrices (triplet, row-by-row or dense construction, sum, product, scaling, transpose and conjugate, Kronecker product with or without fermion signs and an index permutation, block insertion, matrix-vector product, text output and input) yields exactly the matrix that the same operation yields on the dense representation, up to rounding. The result is always structurally valid: row offsets start at zero, never decrease and end at the number of stored entries, and every column index is in range. This holds for matrices with empty rows or no stored entries at all, rectangular shapes, unordered and cancelling entries, destinations that already have contents, and complex values alike.",
 ["inputs","programs"],"all shapes, sparsity patterns, real and complex values, and sequences of operations",
 "The shipped runs multiply or transpose a handful of fixed or random square matrices and mostly check only the exit status; empty rows, rectangular shapes, cancellations, permutations and in-place updates are never compared with a reference.",
 ["src/CrsMatrix.h","src/Sort.h","src/SparseRow.h","src/SparseRowCached.h","src/SampleCRSMatrix.h"],
 [("row-pointer construction and validity check","src/CrsMatrix.h constructors, setRow/pushCol/pushValue/checkValidity"),("addition and product kernels","src/CrsMatrix.h operatorPlus, multiply, multiplyScalar"),("transpose, externalProduct, permute, sparse/dense conversion","src/CrsMatrix.h free functions")])
p("C02","Dense matrix and vector arithmetic matches textbook linear algebra",
 "Dense matrix and vector expressions (sums, differences, scalar and matrix products, lazily evaluated compound expressions, transpose and conjugate transpose, norms, scalar and outer products, permutation and in-place updates) evaluate to the mathematically defined result for every shape and for real and complex values, including when the destination also appears among the operands. Element addressing, resizing, copying, moving and clearing keep the shape and contents consistent. Scalar products, in-place differences and shape-changing operations between incompatible shapes are refused rather than computing on out-of-range data.",
 ["inputs","programs"],"all shapes, element types, expression forms and aliasing of source and destination",
 "Tests evaluate a few fixed expressions of square matrices and compare nothing but an exit status; aliasing, rectangular shapes, complex conjugation and mismatches are not sampled.",
 ["src/Matrix.h","src/Matrix.cpp","src/Vector.h","src/Complex.h","src/MatrixNonOwned.h"],
 [("column-major storage and operators","src/Matrix.h class Matrix"),("expression closures","src/Vector.h, src/Matrix.h closure operators"),("free functions multiply, transposeConjugate, outerProduct, norm2","src/Matrix.h")])
p("C03","Dense factorizations satisfy their defining equations",
 "For every admissible input, eigenvalue decompositions return ascending real eigenvalues and an orthonormal basis that reconstructs the matrix, general eigenvalue decompositions return true right (and left) eigenvectors, inverses multiply back to the identity, singular value decompositions return orthonormal factors and non-negative descending values that reconstruct the matrix, and the exponential of a real symmetric matrix, and the phase exponentials exp(iH) and exp(i pi H) of a complex Hermitian one, equal their power series. Inputs that are not admissible (not square, singular, unknown mode) are refused with an error instead of a wrong result.",
 ["inputs"],"all square or rectangular matrices as applicable, real and complex, degenerate and ill-scaled spectra, all job modes and backends",
 "The tests run two fixed examples to completion; they do not check residuals, orthogonality, degenerate spectra, complex Hermitian input or the error paths.",
 ["src/Matrix.h","src/Matrix.cpp","src/Svd.h","src/LAPACK.h","src/LapackExtra.h"],
 [("LAPACK drivers with workspace query","src/Matrix.h diag/geev/inverse, src/Matrix.cpp"),("SVD wrapper with two backends","src/Svd.h"),("matrix exponential","src/Matrix.h exp / expIpi / expComplexOrReal")])
p("C04","Blocked threaded matrix multiply equals the reference product",
 "The blocked, threaded general matrix multiply computes C := alpha*op(A)*op(B)+beta*C for every size, transposition mode, leading dimension, scalar pair, block size and thread count, writes only the addressed part of C, and gives the same result as an unblocked single-threaded product up to rounding.",
 ["inputs","configurations","schedules"],"all matrix sizes around and below the block size, transposition flags, leading dimensions larger than the row count, thread counts and block sizes, and thread interleavings",
 "The shipped self-test multiplies fixed-size matrices with two thread counts; tiny, empty, non-multiple and padded sizes and other block sizes are not reached.",
 ["src/GemmR.h","src/BLAS.h","src/Parallelizer2.h"],
 [("block decomposition of rows and columns","src/GemmR.h operator()"),("threaded inner loop","src/GemmR.h / src/Parallelizer2Pthread.h")])
p("C05","A parallel loop runs every task exactly once and joins before returning",
 "Whatever the number of tasks, threads (at least one), weights, stack size or affinity setting, as long as the system can create the threads, running a parallel loop executes each task index exactly once, passes each task a thread number below the configured number of threads that is never used by two tasks at the same time, and has completed all tasks, with their effects visible, when it returns. Per-thread partial results reduced afterwards equal the sequential result, and nested or repeated loops behave the same way. The range of a half-open loop is honoured exactly. With affinities set each thread runs on one processor and the calling thread's own set of processors is left as it was.",
 ["inputs","configurations","schedules","histories"],"task counts including zero and fewer than threads, thread counts, weights, nested and repeated loops, injected delays per task",
 "Tests run a couple of loops with a small task count and look at the exit status; a lost, duplicated or still running task at return would not be noticed, nor would schedules that need a slow worker.",
 ["src/Parallelizer.h","src/Parallelizer2.h","src/Parallelizer2Pthread.h","src/PthreadsNg.h","src/NoPthreadsNg.h","src/Parallelizer2Serial.h","src/LoadBalancerDefault.h","src/LoadBalancerWeights.h","src/Concurrency.h","src/InterNodeSerial.h"],
 [("thread creation, task hand-out and join","src/PthreadsNg.h loopCreate, src/Parallelizer2Pthread.h parallelFor"),("block hand-out","src/LoadBalancerDefault.h, src/LoadBalancerWeights.h"),("serial fallbacks","src/NoPthreadsNg.h, src/Parallelizer2Serial.h")])
p("C06","Parallel execution is free of data races",
 "Provided the tasks themselves share nothing, running parallel loops, the threaded matrix multiply and the library's shared services (thread-count configuration, progress indicators created with distinct thread numbers, of which only the first prints, mutexes offered by the library) from several threads performs no unsynchronised conflicting accesses, and locks offered by the library provide mutual exclusion.",
 ["schedules"],"all thread interleavings, with 2 or more worker threads and injected delays",
 "A data race is a property of the interleavings, which tests do not control; the tests here never run under a race detector.",
 ["src/PthreadsNg.h","src/Parallelizer2Pthread.h","src/Pthreads.h","src/GemmR.h","src/Concurrency.h","src/LoadBalancerWeights.h"],
 [("per-thread task structures joined before return","src/PthreadsNg.h"),("mutex wrapper","src/Concurrency.h mutexLock/mutexUnlock"),("read-only task function and per-thread structs","src/Parallelizer2Pthread.h")])
p("C07","Load balancing partitions the tasks and balances the given weights",
 "Every load balancer assigns each task to exactly one thread, for any number of tasks and threads including more threads than tasks, and each per-thread task list is addressed consistently with its reported size. With weights, no thread carries more than the average load plus the largest single weight, and with equal weights no thread gets more tasks than the average rounded up.",
 ["inputs","configurations"],"all task counts, thread counts and non-negative integer weight vectors",
 "The one test program prints an imbalance for a fixed case; no test verifies that the assignment is a partition or how unbalanced it can be.",
 ["src/LoadBalancerDefault.h","src/LoadBalancerWeights.h","src/LoadBalancerMpi.h"],
 [("greedy assignment of sorted weights","src/LoadBalancerWeights.h"),("contiguous blocks","src/LoadBalancerDefault.h")])
p("C08","Iterative eigensolver returns true eigenpairs with the promised accuracy",
 "For every Hermitian operator with a generic starting vector, the iterative solver's ground state eigenvalue matches the exact one to the requested tolerance when allowed enough steps, and the returned vector is an eigenvector of unit norm. With re-orthogonalization enabled and no degenerate levels, the same holds for any requested excited level, and the several lowest states are returned in ascending order and mutually orthogonal. The tridiagonal coefficients it builds satisfy the three-term recurrence on the basis it stores, and with re-orthogonalization they are the projection of the operator on that orthonormal basis; never more steps are used than allowed, and equal inputs give equal results. Wrong vector sizes, levels that do not exist and unsupported modes are refused.",
 ["inputs","configurations"],"all Hermitian sparse or dense operators (real or complex, any rank including 1), starting vectors, state numbers, step limits, tolerances, with and without reorthogonalization",
 "The shipped drivers print energies for a few matrices and only their exit status is checked; no residual, orthogonality or step bound is verified, and tiny ranks are never used.",
 ["src/LanczosCore.h","src/LanczosSolver.h","src/LanczosVectors.h","src/LanczosOrDavidsonBase.h","src/TridiagonalMatrix.h","src/TridiagonalMatrix.cpp","src/ParametersForSolver.h"],
 [("three-term recurrence and stopping rule","src/LanczosCore.h decomposition"),("Ritz vector assembly","src/LanczosVectors.h excitedVector, reorthoIfNecessary"),("tridiagonal diagonalization","src/TridiagonalMatrix.cpp diag2")])
p("C09","Spectral functions equal the resolvent and the kernel expansion they stand for",
 "A continued fraction built from a tridiagonal projection evaluates, at every complex frequency and on every requested real or Matsubara grid, to the corresponding matrix element of the resolvent with its weight, sign and offset; a collection evaluates to the sum of its members; and saving and reloading either of them preserves the evaluated function to the written precision. Chebyshev polynomials, moments and kernel-weighted reconstructions equal their definitions. A grid yields exactly the frequencies in the requested interval.",
 ["inputs","configurations","histories"],"all tridiagonal data, weights, signs, offsets, frequency grids (including narrower than one step), kernels and cutoffs",
 "The drivers that plot spectra are built but never run with a reference; no test evaluates a spectral function.",
 ["src/ContinuedFraction.h","src/ContinuedFractionCollection.h","src/PlotParams.h","src/ChebyshevSolver.h","src/ChebyshevSerializer.h","src/ChebyshevFunction.h","src/ChebyshevFunctionExplicit.h","src/TridiagonalMatrix.h"],
 [("pole/intensity representation","src/ContinuedFraction.h diagonalize, iOfOmega"),("grid loops","src/ContinuedFraction.h plotReal/plotMatsubara"),("accumulation","src/ContinuedFractionCollection.h accumulate"),("kernel polynomial reconstruction","src/ChebyshevSerializer.h plot")])
p("C10","Binary files give back exactly what was written",
 "Any value the library can store in its binary hierarchical format (numbers, booleans, strings, enums, pairs, vectors and nested vectors, complex data, stacks, dense and sparse matrices, composite objects) is read back bit-identical under the same name, in the same or another process, whatever else is stored in the file and in whatever order. Empty values survive too. Reading a name that was never written, or as an incompatible type, raises an error instead of returning made-up data.",
 ["inputs","histories"],"all values of every storable type, names, groups, and interleavings of writes and reads across sessions",
 "Two shipped programs write a fixed value or a boolean vector; other types, empties, nesting, name interference and error paths are not exercised or not compared.",
 ["src/Io/IoNg.h","src/Io/IoNgSerializer.h","src/Io/TypeToH5.h","src/Io/TypeToH5.cpp","src/Io/IoSerializerStub.h","src/Matrix.h","src/CrsMatrix.h"],
 [("type-directed write/read overloads","src/Io/IoNgSerializer.h"),("group creation per nested value","src/Io/IoNgSerializer.h createGroup"),("canonical prefixing of names","src/Io/IoNgSerializer.h")])
p("C11","Overwriting, appending and interrupted sessions keep binary files trustworthy",
 "Overwriting an existing value changes that value and nothing else, and a later read returns the new value; writing a name twice without permission to overwrite never changes the value already there; reopening a file for appending preserves everything already stored, and opening for a new session starts empty. A file whose writer was interrupted before closing is either readable with complete values for everything already flushed or rejected on open, never silently returning partial data.",
 ["histories","crash_points"],"all sequences of open, write, overwrite, close and reopen, and writer death between any two steps",
 "No test overwrites, reopens or interrupts a writer.",
 ["src/Io/IoNg.h","src/Io/IoNgSerializer.h"],
 [("overwrite mode of write","src/Io/IoNgSerializer.h"),("access modes and canary attribute","src/Io/IoNg.h / IoNgSerializer.h constructor, close")])
p("C12","Labelled text files return the labelled value that was written",
 "Numbers, strings, vectors, matrices, stacks and maps written to a labelled text file are read back by label with the written precision; the n-th occurrence of a label from the reader's position gives the n-th value written under it from there, the last-instance request gives the last one of the file wherever the reader is, and rewinding (which counting also does) makes reads start from the beginning again. A missing label or occurrence, or a value cut short, raises an error, and no stale or neighbouring value is ever returned, also when one label (given to the reader with its equals sign) is a prefix of another or the value is empty.",
 ["inputs","histories"],"all labels, values, numbers of occurrences, and orders of reads",
 "Only a driver that is not part of the tests reads text files; label prefixes, repeated labels and empties are untested.",
 ["src/Io/IoSimple.h","src/Vector.h","src/Matrix.h","src/CrsMatrix.h"],
 [("line scan with level counter","src/Io/IoSimple.h readline/advance/read"),("stream operators of containers","src/Vector.h, src/Matrix.h, src/CrsMatrix.h")])
p("C13","Input files deliver the values written in them or an error naming the problem",
 "Reading a label from an input file returns the value written for that label (number, string, vector, real or complex matrix, map), successive reads of a repeated label return its successive values, and the result is independent of blank lines, comments, spacing, a final newline, the order of labels and of unrelated labels. Missing or unknown labels, missing values, values of the wrong type, integers that do not fit, wrong element counts and malformed numbers raise an error that names the label, line or text, and no malformed input makes the reader crash, hang or read outside its buffers.",
 ["inputs"],"all well-formed input files in the documented formats and arbitrary mutations of them",
 "The only example reader does not even compile here, so nothing in the test suite parses an input file in this format.",
 ["src/InputNg.h","src/InputCheckBase.h","src/Ainur/Ainur.h","src/Options.h"],
 [("character state machine","src/InputNg.h Writeable"),("label maps and typed readline/read","src/InputNg.h Readable"),("Ainur delegation for version 2","src/InputNg.h with src/Ainur")])
p("C14","The configuration language assigns each variable the value its text denotes",
 "A well-formed script in the typed configuration language, with declarations, assignments and reassignments, strings, vectors, complex vectors, matrices, repeated elements, macros, comments and functions tabulated in files, gives every variable exactly the value its text denotes, independent of white space and comments between tokens and of the order of unrelated statements. Undeclared or redeclared variables, missing values, unknown or endlessly recursive macros, and values that are not of the type they are read as, are reported as errors. Arbitrary or truncated text makes the parser report an error or parse, but never crash, hang or read outside its buffers.",
 ["inputs","programs"],"all scripts of the language, and arbitrary mutations of them",
 "Two fixed scripts are parsed by the tests and one number is compared; malformed scripts and most value forms are untested.",
 ["src/Ainur/AinurSpirit.h","src/Ainur/AinurSpirit1.cpp","src/Ainur/AinurState.h","src/Ainur/AinurMacros.hh","src/Ainur/AinurConvert.hh","src/Ainur/AinurConvert1.cpp","src/Ainur/AinurComplex.hh","src/Ainur/AinurLexical.h"],
 [("grammar and statement dispatch","src/Ainur/AinurSpirit1.cpp, AinurSpirit.h"),("declare/assign tables","src/Ainur/AinurState.h"),("value conversion","src/Ainur/AinurConvert.hh"),("macro substitution and functions","src/Ainur/AinurMacros.hh")])
p("C15","Colon-separated expressions evaluate to the tree they spell",
 "Evaluating an arithmetic expression in the colon-separated notation (the root first, then the operands of all operators level by level, as in gene expression programming) gives the value of the expression tree it spells, for every nesting of the supported operators and functions, for integer, real and complex arithmetic. Division is protected (a denominator whose square is below 1e-6 yields the numerator), the modulus is that of the integer parts of the magnitudes (by zero it yields the first), a condition holds when its magnitude is at least one, and inputs take the values last set. Empty, truncated or over-long expressions and unknown tokens are reported as errors rather than evaluated to something else, and evaluation never reads outside its tokens.",
 ["programs","inputs"],"all expression trees over the supported operators, literals and types, and malformed token lists",
 "One test evaluates one sum and checks the exit status only.",
 ["src/AST/ExpressionForAST.h","src/AST/Tree.h","src/AST/Node.h","src/AST/PlusMinusMultiplyDivide.h","src/AST/AdditionalFunctions.h","src/Complex.h"],
 [("tree building from tokens","src/AST/ExpressionForAST.h"),("recursive evaluation","src/AST/Tree.h, src/AST/Node.h"),("operator tables","src/AST/PlusMinusMultiplyDivide.h, AdditionalFunctions.h")])
p("C16","Predicates hold exactly when the comparison they spell is true",
 "A predicate made of comparisons joined by and and or, over named variables, numbers and prefix expressions, is true for given variable values exactly when the logical formula is true in the arithmetic of the variables' type, for every operator offered including divisibility (by zero it is an error), and whatever the names of the variables. An empty predicate is false, malformed predicates are refused when built or evaluated, and options items are routed to the option handler instead of being evaluated.",
 ["programs","inputs"],"all formulas over the offered operators, separators, variable names and values",
 "One test evaluates one comparison and checks the exit status only.",
 ["src/PredicateSimple.h","src/PredicateSimple.cpp","src/PredicateAnd.h","src/PredicateAwesome.h","src/PredicateDefaultSpec.h"],
 [("operator search and split","src/PredicateSimple.h constructor"),("variable substitution and evaluation","src/PredicateSimple.h getValue"),("and/or composition","src/PredicateAnd.h, src/PredicateAwesome.h")])
p("C17","Operator and vector specifications are decomposed faithfully",
 "A sum of products of named operators and scalars (real, imaginary, parenthesized prefix arithmetic) evaluates to the corresponding combination of the operators' values, with factors kept in order, whatever the result held before; terms without any operator contribute nothing, and a minus sign is allowed only at the start of a term or parenthesis. An operator label splits into name, index and transposition mark, a site in brackets is extracted without altering the rest, and a bra or ket specification yields the kind and indices it spells. Malformed specifications are refused with an error.",
 ["programs","inputs"],"all specifications in the documented grammar and mutations of them",
 "None of this code is compiled by the tests.",
 ["src/CanonicalExpression.h","src/QuasiCanonical.h","src/CmplxOrReal.h","src/OneOperatorSpec.h","src/GetBraOrKet.h"],
 [("term and factor splitting","src/QuasiCanonical.h, src/CanonicalExpression.h"),("label decomposition","src/OneOperatorSpec.h"),("bra/ket decomposition","src/GetBraOrKet.h")])
p("C18","String and number conversions are exact inverses and reject malformed text",
 "Splitting, replacing, file-name decomposition (last path component, text before the last dot), number recognition and conversion behave as documented for every string: tokens are the maximal separator-free pieces, replacement changes all and only the occurrences of the pattern, text accepted as a number converts to that number and other text is rejected. Base-64 encoding matches the standard and decoding inverts it for every byte string. Complex text is read exactly, integers written as text read back exactly and reals to ten digits.",
 ["inputs"],"all strings, separators, byte sequences and numbers",
 "One test encodes fixed strings and prints the result; nothing is compared and other functions are not exercised.",
 ["src/PsimagLite.h","src/PsimagLite.cpp","src/PsiBase64.h","src/PsiBase64.cpp","src/TypeToString.h","src/Complex.h","src/Options.h","src/LabelDisabled.h"],
 [("token splitting and replacement","src/PsimagLite.cpp"),("number recognition","src/PsimagLite.cpp isAnInteger/isAfloat/atoi/atof"),("base64 codec","src/PsiBase64.h/.cpp")])
p("C19","Sorting and combinatorial helpers enumerate and order correctly",
 "Sorting returns the keys in ascending order together with a permutation that maps the sorted sequence back to the input, for any length including partial sorts. Permutation enumeration visits every distinct arrangement exactly once in lexicographic order, sum decompositions list every composition exactly once, bit counts equal the number of set bits, and index packing and unpacking are inverse.",
 ["inputs"],"all key sequences (with repeats), lengths, totals, words and index ranges",
 "One test lists one decomposition and only its exit status is checked.",
 ["src/Sort.h","src/Permutations.h","src/SumDecomposition.h","src/BitManip.h","src/PackIndices.h"],
 [("indirect sort","src/Sort.h"),("next permutation","src/Permutations.h"),("recursive enumeration","src/SumDecomposition.h"),("bit tricks","src/BitManip.h")])
p("C20","Sparse vectors behave as the vectors they represent",
 "A sparse vector built from a dense one, from a chunk or entry by entry represents the vector with those entries added up; sorting merges repeated indices without changing the represented vector; and scaling, subtraction, scalar product, norm, equality, chunk extraction and partition lookup agree with the dense vector. Extracting a range or partition the vector does not fit in is refused.",
 ["inputs","programs"],"all dense vectors, entry sequences (unordered, repeated, cancelling), chunks and partitions, real and complex",
 "No test uses sparse vectors.",
 ["src/SparseVector.h","src/Sort.h"],
 [("merge of repeated indices","src/SparseVector.h sort"),("merge-join scalar product","src/SparseVector.h scalarProduct"),("chunk extraction","src/SparseVector.h toChunk/findPartition")])
p("C21","Lattice geometries are consistent graphs with unambiguous bond values",
 "For every lattice that the input can ask for (chain at any distance, ladder, ladder with diagonals and two legs, ladder with bath, star, general, KTwoNiFFour, honeycomb; open or periodic; one or several terms; plain or configuration language), connection is symmetric and, except for the general lattice, irreflexive, and equal to the lattice's definition; every bond has the direction of the definition; bonds of one direction use distinct entries of that direction's list in the documented order (by lower site, bonds that close a period last) and, on the chain, ladder, star and bath lattices, all of them; and the value between two sites and orbitals is the one given in the input: the same both ways for single values, conjugate transposed when traversed from the lower site for matrices, zero when unconnected, also when printed or saved. On chain, ladder and general lattices reflection is an involution and translation by a period is the identity, and both move bonds to bonds where the lattice has the symmetry. Splitting the lattice covers every site exactly once with the system growing from the left and the environment from the right; in the growth of an open chain the site next to the environment stands for the missing ones. Inconsistent input (unknown lattice, missing labels, wrong number or shape of values, sizes the lattice does not admit) is refused with an exception.",
 ["inputs","configurations"],"all lattice kinds, sizes, leg counts, boundary conditions, orbital counts and connector values",
 "No geometry code is compiled by the tests.",
 ["src/Geometry/Geometry.h","src/Geometry/GeometryTerm.h","src/Geometry/GeometryDirection.h","src/Geometry/LongChain.h","src/Geometry/Ladder.h","src/Geometry/LadderX.h","src/Geometry/LadderBath.h","src/Geometry/Star.h","src/Geometry/LongRange.h","src/Geometry/KTwoNiFFour.h","src/Geometry/Honeycomb.h"],
 [("connected/calcDir/handle per lattice","src/Geometry/*.h"),("cached bond values","src/Geometry/GeometryTerm.h cacheValues"),("block splitting","src/Geometry/Geometry.h split")])
p("C22","Random number streams are reproducible, in range and match their definition",
 "A generator started from a given seed always yields the same stream, independent of what other generators did if it keeps its own state, equal to its published algorithm, and every real number drawn lies in the documented interval. Streams for different process ranks differ, and seeding again starts the stream again. Run identifiers are well formed and pass the consistency check shipped for them.",
 ["inputs","histories"],"all seeds, stream lengths beyond the state size, ranks and interleavings of several generators",
 "One test draws a few numbers and ignores them.",
 ["src/MersenneTwister.h","src/MersenneTwister.cpp","src/Random48.h","src/RandomForTests.h","src/ApplicationInfo.h"],
 [("state regeneration and tempering","src/MersenneTwister.cpp"),("rank-dependent seeding","src/MersenneTwister.cpp, src/Random48.h"),("run id with embedded bit count","src/ApplicationInfo.h runIdInternal")])
p("C23","Numerical methods meet their accuracy guarantees",
 "Root finding returns a point where the function is within tolerance of zero inside the bracket or reports failure, quadrature and special functions match known values within their error bounds, minimization does not return a point worse than the start and reaches the minimum of convex functions, spline interpolation passes through its nodes with continuous slope and reproduces straight lines, time stepping converges with its stated order, linear prediction continues any sequence that obeys a linear recurrence of its order, and Fermi functions satisfy their identities everywhere. Out-of-domain requests (no change of sign, points outside the nodes, nodes out of order, wrong sizes or orders, data that do not determine a prediction) are refused.",
 ["inputs","configurations"],"all smooth functions, brackets, tolerances, node sets, step sizes, recurrences and arguments within the documented domains",
 "The drivers for quadrature, minimization and prediction are run once on one input; the other methods are not compiled at all.",
 ["src/RootFindingBisection.h","src/Integrator.h","src/GslWrapper.h","src/SpecialFunctions.h","src/SpecialFunctions.cpp","src/Minimizer.h","src/AkimaSpline.h","src/RungeKutta.h","src/LinearPrediction.h","src/Fermi.h"],
 [("bisection loop","src/RootFindingBisection.h"),("GSL adaptors","src/GslWrapper.h, src/Integrator.h, src/Minimizer.h"),("spline coefficients","src/AkimaSpline.h"),("fourth-order stepping","src/RungeKutta.h"),("normal equations","src/LinearPrediction.h")])
p("C24","Matrix tasks give the same results in parallel as in sequence",
 "Running many independent matrix tasks (singular value decompositions, diagonalizations, inverses, exponentials, products) through the parallel loops gives, for every thread count, balancer and task order, results identical to running them one after the other, including the fallback to the second decomposition backend when the first fails, leaves the shared inputs untouched, and the decompositions satisfy their defining equations.",
 ["configurations","schedules","inputs"],"all thread counts, task counts and matrix sets",
 "One test runs a single thread count and compares nothing.",
 ["src/Svd.h","src/Parallelizer2.h","src/Parallelizer.h","src/Matrix.h"],
 [("per-task state and join","src/Parallelizer2Pthread.h"),("thread-safe LAPACK wrapper with local workspace","src/Svd.h")])
p("C25","Shipped programs run without memory errors, undefined behaviour or deadlock",
 "Every program the project builds, on every command line and input file its usage describes, runs to its documented end without out-of-bounds or use-after-free access, data race, undefined behaviour, failed internal assertion or deadlock, and prints the values its computation defines. A malformed expression, predicate, option list, thread count or input file ends in a reported error, not in a crash, a hang or a silently wrong result.",
 ["inputs","configurations"],"all command lines and inputs of the shipped programs",
 "The tests run each program once without a sanitizer and mostly look at the exit status, so a silent memory error or a wrong printed value passes.",
 ["examples","src"],
 [("assertions and bounds checks","src/*.h"),("argument handling","examples/*.cpp"),("malformed input refused","src/TridiagonalMatrix.h, src/Matrix.h, src/PthreadsNg.h")])
p("C26","Solver and run-time configuration resolve by the documented precedence",
 "Solver parameters read from an input take the value of the most specific label present (indexed, then the largest smaller index, then unindexed), and otherwise the documented default. Enabled options are exactly those listed, unregistered options are refused in strict mode and only reported in permissive mode, and thread, stack and affinity settings passed at start-up are the ones in force afterwards.",
 ["inputs","configurations"],"all combinations of present and absent labels, indices, option lists and start-up settings",
 "No test reads solver parameters from an input or queries the settings in force.",
 ["src/ParametersForSolver.h","src/Options.h","src/LabelDisabled.h","src/CodeSectionParams.h","src/Concurrency.h"],
 [("label fallback","src/ParametersForSolver.h rabbitHole"),("registered option check","src/Options.h"),("code section settings","src/Concurrency.h setOptions")])
p("C27","Progress, timing and memory reports show exactly what was reported",
 "Every progress or profiling report reaches its stream exactly once and in order, carries the caller's name, a time stamp and only the text of that message, and leaves the stream's format as it found it; the reports kept in the buffer are exactly those made while it was active. Times measured, memory-status entries, line markers, run records, the recorded command line and environment, redirected output and resource limits are reported faithfully, however many reports are made, from whichever thread and however long the text.",
 ["histories","inputs"],"all sequences of reports, stream formats, message lengths and status files",
 "The tests never read what is reported.",
 ["src/ProgressIndicator.h","src/Profiling.h","src/MemoryUsage.h","src/LineMarker.h","src/RedirectOutput.hh","src/ApplicationInfo.h","src/Limit.h","src/MicroArchitecture.h"],
 [("report and buffer","src/ProgressIndicator.h printline"),("status entries","src/MemoryUsage.h findEntry"),("redirection","src/RedirectOutput.hh"),("reading a marker","src/LineMarker.h")])
p("C28","Linear-algebra wrappers perform the operation they name on every argument",
 "Every wrapper over the vector, matrix and factorization routines, for every element type it is offered in, computes the operation its name stands for from the arguments given (sizes down to zero, either letter case of the options, leading dimensions and strides larger than needed, negative strides, zero factors), writes nothing outside the documented result, and passes the routine sizes and strides that describe the caller's storage.",
 ["inputs"],"all sizes, strides, options and factors of each operation",
 "The tests reach a handful of these operations, through one layout and one element type.",
 ["src/BLAS.h","src/LAPACK.h"],
 [("matrix products","src/BLAS.h GEMM, HEMM, SYMM"),("packed and band storage","src/BLAS.h"),("factorizations","src/LAPACK.h")])
p("C29","Configuration files and makefiles resolve to exactly the text they describe",
 "Reading configuration files in order gives every tag exactly the contents its definitions, additions, removals and deletions describe, with spaces in names canonical, escapes removed once and inclusions resolved to any depth; a file that breaks the language, a block that never closes, a missing tag or a circular inclusion is refused. The makefile written from drivers and libraries builds each driver from exactly its declared sources with the configured flags and libraries, rebuilds what a change affects, and cleans only what it made.",
 ["inputs","histories"],"all sequences of configuration files, sets of drivers and changes to sources",
 "The tests are built by CMake and never read a configuration file or write a makefile.",
 ["scripts/PsiTag.pm","scripts/NewMake.pm","scripts/psiTag.pl"],
 [("reading tags","scripts/PsiTag.pm readTags"),("inclusion and escapes","scripts/PsiTag.pm unWrap"),("rules written","scripts/NewMake.pm")])
p("C30","Documentation and data tools write exactly what their inputs describe",
 "The manual assembled from a document and sources has every marked piece (text, code block, prototype, function, part of a function, file) whole and unaltered where the document places it, in the directories asked for, with copies resolved to any depth; a missing, repeated, unclosed or circular piece is reported and never replaced by other text. Spectrum tools compute the broadened spectrum and recover its peaks, and text tools change only what they are documented to change, leaving the input as it was when they refuse it.",
 ["inputs"],"all documents, sources, spectra and texts",
 "No test runs the documentation or data tools.",
 ["scripts/doc.pl","PsimagDoc/psimagdoc.pl","scripts/lorentzian.pl","scripts/naiztnerol.pl","scripts/spacesIntoTabs.pl","scripts/colorOutput.pl","scripts/mpiRoundRobin.pl"],
 [("pieces read from sources","scripts/doc.pl loadLabels"),("copies resolved","scripts/doc.pl recursiveExpand"),("pieces from doxygen","PsimagDoc/psimagdoc.pl"),("broadening","scripts/lorentzian.pl")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
