#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
S = "src/primate/"
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

prop("C01", "Running mean and covariance equal the pooled statistics for every batching",
 "After any sequence of batch updates, the running mean equals the arithmetic mean of all observations received so far, and the running covariance with a given ddof equals the sum of outer products of the centred observations divided by the number of observations minus ddof. The result depends only on the observations and not on how they were split into batches, for one-dimensional and for multi-dimensional observations, and the observation count is the total number of rows received.",
 ["inputs", "histories"], "every finite sequence of update calls with arbitrary batch sizes, dimensions and values; every ddof",
 "The tests use one seed, batches of 10 rows and dimensions 1 and 2; they cannot cover every batching, dimension or ddof.",
 ["stats.py"], [("Mean.update", S+"stats.py"), ("Covariance.update", S+"stats.py"), ("Covariance.__call__", S+"stats.py")],
 [("n, mu, S", "row count, mean and scatter matrix of everything received so far", S+"stats.py")])
prop("C02", "Mean estimator bookkeeping: count, last change, recorded values, estimate",
 "After every update a mean estimator's length is the total number of rows it received, its last change is the new mean minus the previous mean, and its estimate is the mean of all rows, with or without covariance tracking. When recording is enabled the recorded values are exactly the rows received, in order; when it is disabled nothing is recorded.",
 ["inputs", "histories"], "every update history, every dimension, both settings of covariance and of recording",
 "Existing tests compare the final mean for one seed and never inspect the last change, the recorded values or the count after each update.",
 ["estimators.py"], [("MeanEstimator.update", S+"estimators.py"), ("MeanEstimator.mean", S+"estimators.py")])
prop("C03", "Estimates handed out are snapshots; estimators share no storage with callers",
 "A value obtained from a running statistic or from a mean estimator (mean, covariance, estimate, last change) is never altered by later updates, and altering it never changes the statistic. An estimator never keeps a reference to a buffer the caller passed in, so reusing or overwriting that buffer afterwards does not change recorded values or statistics, and an update never writes to the caller's array. Two estimator instances never share mutable state.",
 ["histories", "inputs"], "every interleaving of updates, reads and caller-side mutations of the arrays involved",
 "Tests never hold on to an earlier estimate across an update or overwrite a buffer after passing it in.",
 ["stats.py", "estimators.py"], [("Mean.__call__/mean", S+"stats.py"), ("Covariance.__call__", S+"stats.py"), ("MeanEstimator.update", S+"estimators.py")])
prop("C04", "Control variate estimates equal sample mean minus alpha times control error",
 "The control variate estimate equals the mean of the primary samples minus the coefficients applied to the difference between the sample means of the control variables and their known expectations. Coefficients supplied by the user are used unchanged; otherwise they are the regression coefficients solving the sample covariance system of the controls against the primary variable (the ratio of sample covariance to sample variance for one control).",
 ["inputs", "histories"], "all samples, all numbers of control variables, both coefficient modes, every batching",
 "One statistical test compares average accuracy for a single control variable; it cannot distinguish a slightly wrong coefficient, never passes coefficients and never uses several controls.",
 ["estimators.py", "stats.py"], [("ControlVariableEstimator.update", S+"estimators.py"), ("ControlVariableEstimator.estimate", S+"estimators.py")])
prop("C05", "Composite stopping criteria are exact boolean combinations of their parts",
 "For any two criteria and any estimator state, their disjunction, conjunction and negation evaluate to exactly the logical or, and, and not of what the parts evaluate to on that same estimator. Composition is itself a criterion that can be composed further, and neither composing nor evaluating modifies the parts or the estimator.",
 ["inputs", "programs"], "all criteria (including nested compositions) and all estimator states",
 "The tests combine one pair of criteria along one random sample path.",
 ["estimators.py"], [("ConvergenceCriterion.__or__/__and__/__invert__", S+"estimators.py")])
prop("C06", "Count and tolerance criteria decide exactly by their thresholds",
 "The count criterion holds exactly when the estimator has received at least the given number of samples. The tolerance criterion holds exactly when the chosen norm of the last change is strictly below the absolute tolerance or strictly below the relative tolerance times the same norm of the current estimate. Evaluating either never modifies the estimator.",
 ["inputs"], "all thresholds, norm orders and estimator states, including values exactly at the threshold",
 "Tests run one threshold along one path; boundary values, the absolute branch and other norms are not exercised.",
 ["estimators.py"], [("CountCriterion.__call__", S+"estimators.py"), ("ToleranceCriterion.__call__", S+"estimators.py")])
prop("C07", "The confidence criterion tests the margin of error of the sample mean",
 "With at least three samples the confidence criterion holds exactly when the margin of error is at most the absolute tolerance or the standard error relative to the estimate is at most the relative tolerance, where the standard error is the sample standard deviation (ddof 1) over the square root of the sample count. The margin is the standard error times the two-sided quantile at the configured confidence of Student's t with count-minus-one degrees of freedom below 30 samples and of the standard normal from 30 on. With fewer than three samples it never holds, unless a tolerance is infinite.",
 ["inputs"], "all confidence levels, tolerances and estimator states",
 "A statistical test at one confidence level tolerates a 7 percent error in coverage, so wrong degrees of freedom or quantiles pass.",
 ["estimators.py"], [("ConfidenceCriterion.__init__", S+"estimators.py"), ("ConfidenceCriterion._error/__call__", S+"estimators.py")])
prop("C08", "Criteria requested by name are the documented ones with the caller's options",
 "Requesting a criterion by name (count, tolerance, confidence, knee, in any letter case) yields that criterion configured with every one of its options the caller supplied and with its documented defaults otherwise; options it does not have are ignored. A criterion object is returned as is, and an unknown name is rejected.",
 ["inputs", "configurations"], "all names, option subsets and option values",
 "Tests only check that some criterion object comes back for one option each.",
 ["estimators.py", "typing.py"], [("convergence_criterion", S+"estimators.py"), ("restrict_kwargs", S+"typing.py"), ("CRITERIA", S+"estimators.py")])
prop("C09", "Isotropic sampling produces the named distribution, by size or in place",
 "Rademacher samples are +1 or -1 with probability one half each, spherical samples are Gaussian columns rescaled to Euclidean norm equal to the square root of their length, and normal samples are standard Gaussian, independently per entry or per column. The aliases for signs and gaussian select the same distributions, and filling an output array, passing a size, or calling the returned sampler give the same transformation of the random stream; unknown names are rejected.",
 ["inputs", "configurations"], "all sizes, distribution names, output arrays and generator states",
 "Tests check a few moments and one seed for tolerance-level agreement; they cannot establish the exact support, normalisation axis or probability.",
 ["random.py"], [("_rademacher_inplace/_sphere_inplace/_normal_inplace", S+"random.py"), ("isotropic", S+"random.py")])
prop("C10", "All randomness comes from the caller's seed or generator",
 "Every random number drawn by a sampler, random matrix generator, trace or diagonal estimator, or Lanczos start vector comes from a generator built from (or equal to) the caller's seed argument. No draw uses the process-wide generator or a freshly seeded one when a seed is given, no function re-seeds inside its sampling loop, and no other ambient nondeterminism (clock, process id, hash order) reaches a result.",
 ["inputs", "configurations", "histories"], "every public function taking a seed, every distribution and option combination, repeated calls",
 "Tests pass seeds to make themselves deterministic but do not compare repeated runs over all functions and options.",
 ["random.py", "trace.py", "diagonal.py", "lanczos.py"], [("np.random.default_rng(seed)", S+"random.py"), ("hutch/hutchpp/xtrace", S+"trace.py"), ("diag/xdiag", S+"diagonal.py"), ("lanczos", S+"lanczos.py")])
prop("C11", "Parallel filling covers every column exactly once with independent generators",
 "A multi-threaded isotropic buffer is filled so that each column is written by exactly one task, no two concurrent tasks share a generator or overlap in the columns they write, and every task has finished when the fill returns. The contents therefore depend only on the seed and the number of threads, never on scheduling.",
 ["schedules", "inputs"], "all thread counts, shapes (including columns not divisible by the thread count) and schedules",
 "The single test compares wall-clock times; no schedule is controlled and no coverage of columns is checked.",
 ["random.py"], [("Isotropic.fill", S+"random.py"), ("Isotropic.__init__", S+"random.py")])
prop("C12", "Random matrices are symmetric with exactly the prescribed spectrum",
 "A generated random symmetric matrix equals an orthogonal matrix times the diagonal of the prescribed eigenvalues times the transpose of that orthogonal matrix, so it is symmetric and its spectrum is exactly the prescribed one; when positive definiteness is requested, prescribed values below a tiny positive bound are raised to it. Without prescribed eigenvalues they are drawn uniformly from [-1, 1), or from [0, 1) when positive definiteness is requested.",
 ["inputs"], "all sizes, eigenvalue vectors, base distributions and seeds",
 "Tests sample one size and one seed.",
 ["random.py"], [("symmetric", S+"random.py"), ("haar", S+"random.py")])
prop("C13", "Girard-Hutchinson samples are the quadratic forms of fresh isotropic probes",
 "Every sample the Hutchinson trace estimator averages is the quadratic form of the operator at an isotropic probe vector drawn for that iteration, one sample per drawn probe, for every batch size, and the returned estimate is the mean of all samples so far. Operators offering their own quadratic form are evaluated through it; an operator with an empty dimension yields zero.",
 ["inputs", "histories"], "all operators, dimensions, batch sizes, distributions and both calling modes",
 "Tests compare an average to the trace within a loose statistical tolerance for one matrix.",
 ["trace.py"], [("hutch", S+"trace.py")])
prop("C14", "Hutch++ is an unbiased trace estimator for every operator and budget",
 "The Hutch++ estimate is the exact trace of the operator compressed to an orthonormal basis of a random sketch of its range, plus the average of the quadratic forms of the operator at independent isotropic probes projected on the orthogonal complement of that basis. Its expectation over the second set of probes is therefore exactly the trace of the operator, for every sketch size and in both evaluation modes, and the reported sample count is the number of probes used.",
 ["inputs", "configurations"], "all matrices, sketch sizes, distributions and modes",
 "Unbiasedness quantifies over a probability distribution and all matrices; the test compares one value within 1/sqrt(n).",
 ["trace.py"], [("hutchpp", S+"trace.py")])
prop("C15", "XTrace averages exact leave-one-out Hutch++ estimates",
 "Each XTrace sample i equals the trace of the operator compressed to the range of the sketch without probe i, plus the quadratic form of the doubly deflated operator at probe i (rescaled to the dimension of the complement for spherical probes). The basis, triangular factor, its inverse and the operator's image of the basis used for this always belong to exactly the probes drawn so far, for every batch size, and at most as many probes are drawn as the operator has columns.",
 ["inputs", "histories"], "all matrices, probe matrices with independent images, batch sizes and numbers of batches",
 "The test checks that the estimate after n probes matches the trace within 1e-2 for one matrix, where every leave-one-out formula error multiplies a vanishing residual.",
 ["trace.py", "linalg.py"], [("_xtrace", S+"trace.py"), ("xtrace", S+"trace.py"), ("update_trinv", S+"linalg.py")])
prop("C16", "Diagonal estimators compute the documented ratio and leave-one-out formulas",
 "Each iteration of the Girard-Hutchinson diagonal estimator draws one isotropic probe and feeds the estimator the ratio of the running sum of probe times operator-applied-to-probe to the running sum of squared probes, entrywise. The exchangeable diagonal estimator returns the average over probes of the diagonal of the operator compressed to the sketch without that probe plus that probe's Hutchinson estimate of the remainder.",
 ["inputs", "histories"], "all square matrices (symmetric or not), probe counts and distributions",
 "Tests check that the error shrinks on average for one random matrix.",
 ["diagonal.py"], [("diag", S+"diagonal.py"), ("xdiag", S+"diagonal.py")])
prop("C17", "Iterative estimators stop exactly when the configured criterion says so",
 "The iterative trace and diagonal estimators evaluate the configured criterion on their estimator before every iteration, perform no further iteration once it holds, and never stop before it holds, except that XTrace additionally stops when it has used as many probes as the operator has columns. The criterion evaluated is the caller's, with the options the caller gave, or the documented default (200 samples or a 95 percent interval of half-width one for Hutchinson) when none was given.",
 ["inputs", "histories", "configurations"], "all criteria, options, operators and modes",
 "Tests use the default criterion or a count and look only at the final number.",
 ["trace.py", "diagonal.py", "estimators.py"], [("while not converge(estimator)", S+"trace.py"), ("diag loop", S+"diagonal.py")])
prop("C18", "Results and callbacks reflect the estimate actually returned",
 "With full output the returned result object carries the same estimate that is returned, the criterion used, the estimator holding the samples and the number of iterations performed. A callback is invoked exactly once per iteration, after that iteration's update, with a result object whose estimate is the current one, and giving a callback never changes the estimates that full output alone would produce.",
 ["histories", "configurations"], "all iteration counts, callbacks and output modes",
 "Tests assert only the type of the result object and that a callback ran at least once.",
 ["trace.py", "diagonal.py", "estimators.py"], [("hutch", S+"trace.py"), ("xtrace", S+"trace.py"), ("diag", S+"diagonal.py")])
prop("C19", "The native Lanczos routine performs the exact three-term recurrence",
 "In exact arithmetic step j of the native Lanczos iteration computes w = A q_j - beta_j q_{j-1}, alpha_j = <q_j, w>, w := w - alpha_j q_j, beta_{j+1} = ||w|| and q_{j+1} = w / beta_{j+1}, starting from the normalised start vector with beta_0 = 0. It stops early exactly when beta_{j+1} falls below the residual tolerance or the requested degree is reached, and the basis is stored cyclically in the available columns. Reorthogonalisation only subtracts projections onto stored basis vectors.",
 ["inputs"], "all operators, start vectors, degrees, numbers of stored vectors and orthogonalisation depths",
 "The native extension is not even built by the offline test run; the upstream tests compare eigenvalues for one full-degree run.",
 ["include/lanczos.h", "_lanczos.cpp"], [("lanczos_recurrence", S+"include/lanczos.h"), ("orth_vector", S+"include/lanczos.h")])
prop("C20", "The native Lanczos routine stays inside the buffers it is given",
 "For every call the native routine accepts, every element it reads or writes lies inside the caller's vectors and basis matrix: at most degree plus one tridiagonal entries, only existing basis columns, and vectors as long as the operator is wide and high. Calls with non-square operators, mismatched start vectors or too-small output buffers are rejected before anything is written, and outputs are written to the caller's own arrays, never to a temporary copy.",
 ["inputs"], "all operator shapes, degrees, orthogonalisation depths, buffer sizes and dtypes, including degree one and single-column bases",
 "Out-of-bounds accesses need not crash; the tests use well-formed buffers only.",
 ["include/lanczos.h", "_lanczos.cpp", "include/pylinop.h", "include/eigen_operators.h", "lanczos.py"], [("_lanczos_wrapper", S+"_lanczos.cpp"), ("lanczos_recurrence", S+"include/lanczos.h"), ("PyLinearOperator.matvec", S+"include/pylinop.h")])
prop("C21", "No public function modifies the arrays a caller passes in",
 "Operators, start vectors, tridiagonal entries, eigenvalue vectors, samples and factors passed to a public function hold the same contents when it returns. The only arrays written to are those documented as outputs (the output array of the samplers, the node and weight buffers of the quadrature, the in-place tridiagonal QL and three-term-recurrence kernels, and explicitly supplied Lanczos workspaces).",
 ["inputs"], "all inputs, dtypes and memory layouts for which no defensive conversion happens to copy",
 "Tests rarely reuse an input after the call, and a conversion hides the write for some dtypes.",
 ["lanczos.py", "tridiag.py", "integrate.py", "linalg.py", "operators.py", "random.py", "trace.py", "diagonal.py", "stats.py", "estimators.py", "special.py"], [("v0 copy", S+"lanczos.py"), ("d.copy(), e.copy()", S+"tridiag.py"), ("x.astype", S+"operators.py")])
prop("C22", "Matrix function products and quadratic forms follow the Lanczos formula",
 "Applying a matrix function to a vector returns the vector's norm times basis times eigenvectors times function-of-eigenvalues weighted by first eigenvector components, and its quadratic form returns the squared norm times the Gauss quadrature sum, both for the tridiagonalisation of the wrapped operator started at that vector, with the configured degree, tolerance and orthogonalisation. The k-th quadratic form of a block of vectors uses only the k-th column. Results never depend on earlier applications of the same operator object.",
 ["inputs", "histories"], "all functions, vectors, blocks and sequences of calls on one object",
 "Tests cover a single full-degree configuration; state left by an earlier call changes results only for some degrees and call orders.",
 ["operators.py", "integrate.py"], [("MatrixFunction._matvec", S+"operators.py"), ("MatrixFunction.quad", S+"operators.py")])
prop("C23", "Quadrature rules have the requested degree, nodes and weights",
 "The quadrature rule of requested degree k of a tridiagonal matrix consists of exactly min(k, n) nodes, the eigenvalues of the leading k-by-k block, and as weights the squared first components of the matching eigenvectors or, for the three-term recurrence method, the reciprocal of the sum of squared orthonormal polynomials at the node. The off-diagonal may be given with or without its leading zero, output arrays receive exactly what is returned, and unknown methods are rejected.",
 ["inputs"], "all tridiagonal matrices, degrees, methods and output buffers",
 "Tests check one full-degree matrix per method.",
 ["integrate.py", "fttr.py"], [("quadrature", S+"integrate.py"), ("fttr/ortho_poly", S+"fttr.py")])
prop("C24", "Tridiagonal eigen-solvers pass the right data to the chosen method",
 "The tridiagonal eigen-solvers hand the full diagonal and the off-diagonal without its leading zero to the requested method, fall back to the QL iteration only when the primary solver fails under the automatic method, start the eigenvector accumulation from the identity, and forward the iteration limit. Eigenvectors are returned exactly by the function that promises them, and invalid lengths or methods are rejected.",
 ["inputs", "fault_sequences"], "all inputs of either length convention, all methods, and failure of the primary solver",
 "The fallback is never exercised and each method is tested on one well-conditioned matrix.",
 ["tridiag.py", "lanczos.py"], [("_eigh_tridiag", S+"tridiag.py"), ("eigh_tridiag/eigvalsh_tridiag", S+"tridiag.py")])
prop("C25", "Every QL sweep is an exact orthogonal similarity transformation",
 "In exact arithmetic every implicit QL sweep replaces the tridiagonal matrix by an orthogonally similar tridiagonal matrix, whatever shift is used, so trace, sum of squares and characteristic polynomial of the active block are unchanged, and the accumulated eigenvector matrix is multiplied by the same rotations. No sweep divides by an expression that can vanish for finite nonzero off-diagonals.",
 ["inputs"], "all diagonals, nonzero off-diagonals, active blocks and shifts",
 "Tests diagonalise a few random matrices whose final eigenvalues forgive wrong intermediate sweeps.",
 ["tqli.py"], [("tqli", S+"tqli.py")])
prop("C26", "Named spectral functions compute what their names say",
 "Each built-in spectral function requested by name evaluates to the documented function for every argument: identity, absolute value, square root, logarithm (clamped below at machine epsilon), reciprocal, exponential of t times x, smoothstep rising from 0 at a to 1 at b with the cubic Hermite polynomial, softsign of degree q, and the numerical-rank indicator of magnitude at least the threshold. Options given by the caller replace the defaults, the function called with data equals the curried function applied to that data, callables pass through, and unknown names are rejected.",
 ["inputs", "configurations"], "all arguments, parameter values and names",
 "Tests evaluate a few functions at a handful of points with default parameters.",
 ["special.py"], [("param_callable", S+"special.py"), ("smoothstep/softsign/exp/step", S+"special.py")])
prop("C27", "Toeplitz operators multiply by the Toeplitz matrix they describe",
 "For every first column, optional first row and vector, the matrix-free Toeplitz operator returns exactly the product of the Toeplitz matrix with that column and row (the column's first entry on the diagonal) and the vector, as a freshly allocated array. Earlier products never influence later ones, and vectors of the wrong length are rejected.",
 ["inputs", "histories"], "all columns, rows (symmetric or not), vectors and call sequences",
 "No test multiplies a Toeplitz operator with an asymmetric row or applies one twice.",
 ["operators.py"], [("Toeplitz.__init__/_matvec", S+"operators.py")])
prop("C28", "The triangular inverse update returns the inverse of the bordered matrix",
 "Given the inverse of an upper-triangular matrix and a new column, the update returns exactly the inverse of the bordered upper-triangular matrix, for every size including the empty matrix and for column vectors given flat or as a matrix, without modifying its inputs. Mismatched sizes are rejected.",
 ["inputs"], "all sizes and all nonsingular upper-triangular matrices",
 "The test grows one random matrix and compares within tolerance.",
 ["linalg.py"], [("update_trinv", S+"linalg.py")])
prop("C29", "Confidence intervals are centred at the mean with the exact quantile half-width",
 "The confidence interval of a sample is the sample mean plus and minus the two-sided quantile at the given confidence times the sample standard deviation (ddof 1) over the square root of the sample size, with Student's t quantile of size minus one degrees of freedom, or the standard normal quantile when requested. The two limits are ordered and symmetric about the mean, and invalid confidence levels or distributions are rejected.",
 ["inputs"], "all samples, confidence levels and both distributions",
 "The test compares the two variants at 1500 samples, where wrong degrees of freedom are invisible.",
 ["stats.py"], [("confidence_interval", S+"stats.py")])
prop("C30", "Everything the package needs is installed, including transitive headers",
 "Every module imported by an installed Python module of the package is itself installed, and every project header reachable from an installed header through includes is installed too. Installed names refer to files that exist.",
 ["configurations"], "all modules and headers of the package",
 "The tests run from the source tree and never from an installed copy.",
 ["meson.build", "include/lanczos.h", "include/linear_operator.h", "include/pylinop.h"], [("python_sources/include_sources", S+"meson.build")])
prop("C31", "Every documented option of a public function influences its behaviour",
 "Each parameter of a public function or constructor that is not documented as unused can influence the returned value, the arrays written, or the calls made to user-supplied objects. In particular tolerances, degrees, orthogonalisation depth, batch size, solver method, distribution and recording options are never silently dropped on any path that accepts them.",
 ["configurations", "inputs"], "all parameters of all public functions",
 "Tests pass most options once with their default-like values and cannot notice that an option has no effect.",
 ["trace.py", "diagonal.py", "lanczos.py", "operators.py", "integrate.py", "tridiag.py", "random.py", "special.py", "estimators.py", "stats.py"], [("public function signatures", S)])
prop("C32", "Estimators and operators validate what they are given before using it",
 "The Hutchinson, Hutch++ and diagonal estimators reject, before sampling anything, operators without a matrix product, with fewer than two dimensions, that are not square, or whose dtype is not a 32- or 64-bit float, and report the operator's own dtype as working precision. A matrix function rejects non-square operators, degrees below two and spectral functions that are not callable or change the length of their argument.",
 ["inputs"], "all objects passed as operators or functions",
 "Tests pass only valid operators.",
 ["operators.py", "trace.py", "diagonal.py"], [("is_valid_operator/is_linear_op", S+"operators.py"), ("MatrixFunction.__init__/fun", S+"operators.py")])
prop("C33", "The Lanczos driver returns the tridiagonal matrix and basis of the requested run",
 "The Lanczos driver runs the native iteration on the given operator from the given start vector (or a seeded uniform one) with the requested tolerance, precision, degree capped at the operator's width and orthogonalisation depth capped at the degree. It returns exactly the diagonal and off-diagonal of that run, either as a pair of lengths k and k-1 or as the symmetric tridiagonal sparse matrix with the same entries, plus a basis of k columns when requested; Rayleigh-Ritz values are the eigenvalues of that same pair.",
 ["inputs", "configurations"], "all operators, degrees, output options and precisions",
 "The offline test run does not even build the extension; upstream tests compare eigenvalues of one run.",
 ["lanczos.py"], [("lanczos", S+"lanczos.py"), ("rayleigh_ritz", S+"lanczos.py")])
# ---- stated, not claimed -------------------------------------------------------------------------------------------
prop("C40", "Lanczos coefficients are accurate in floating point",
 "In floating point, with sufficient reorthogonalisation, the computed tridiagonal matrix equals the orthogonal compression of the operator up to a small multiple of machine precision times the operator norm, and the stored basis is orthonormal to the same accuracy.",
 ["inputs"], "all symmetric operators and start vectors", "A rounding-error bound over all inputs; tests compare a few eigenvalues.",
 ["include/lanczos.h"], [("orth_vector", S+"include/lanczos.h")])
prop("C41", "Matrix function products converge to f(A)v",
 "As the degree grows the matrix function product converges to the exact product of the matrix function and the vector, with error governed by the best polynomial approximation of the function on the spectrum.",
 ["inputs"], "all operators, functions and degrees", "An approximation-theoretic bound over all functions and spectra; tests sample one matrix at full degree.",
 ["operators.py"], [("MatrixFunction", S+"operators.py")])
prop("C42", "Confidence-based stopping attains its nominal coverage",
 "When the confidence criterion stops the Hutchinson estimator, the true trace lies within the requested absolute tolerance of the estimate with probability close to the configured confidence.",
 ["inputs", "histories"], "all operators and all random streams", "A probability over random streams and a sequential stopping rule; a test observes one empirical frequency.",
 ["estimators.py", "trace.py"], [("ConfidenceCriterion", S+"estimators.py")])
prop("C43", "Estimation loops terminate",
 "Every estimation loop whose criterion is a tolerance, confidence or knee criterion terminates after finitely many iterations with probability one.",
 ["histories"], "all operators, criteria and random streams", "Termination depends on the convergence of random sample paths; tests only observe runs that ended.",
 ["trace.py", "diagonal.py"], [("while not converge(estimator)", S+"trace.py")])
prop("C44", "The QL iteration converges within its iteration limit",
 "For every real symmetric tridiagonal matrix the implicit QL iteration reduces every off-diagonal entry to negligible size within the default iteration limit per eigenvalue, so its diagonal holds the eigenvalues to working precision.",
 ["inputs"], "all tridiagonal matrices", "Convergence of a shifted floating-point iteration over all inputs; tests diagonalise a few matrices.",
 ["tqli.py"], [("tqli", S+"tqli.py")])
prop("C45", "Streaming covariance is numerically stable",
 "The streamed covariance agrees with a two-pass computation to within a small multiple of machine precision even when the mean is large compared to the spread.",
 ["inputs"], "all sample streams", "A rounding-error statement over all streams; tests use well-scaled data.",
 ["stats.py"], [("Covariance.update", S+"stats.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
