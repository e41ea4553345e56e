#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the properties)."""
import json, os
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))

p("C01","QR: A = Q*R with orthonormal Q and triangular, non-negative R",
 "For every real matrix with at least as many rows as columns, the QR decomposition yields Q with orthonormal columns and an exactly upper-triangular R with a non-negative diagonal, such that Q*R reproduces the matrix to within rounding error of its magnitude. This holds for f32 and f64 and regardless of rank (zero, repeated or dependent columns), of empty dimensions, of entry scale within the floating-point range (also when each column is measured in a unit of its own, the error being judged column by column), and of how small the columns left over during elimination become.",
 ["inputs","configurations"],"all tall/square matrices, both element types, all ranks and scales",
 "Property tests draw 1000 generic full-rank f64 matrices with entries in [-100,100]; rank-deficient, f32 and badly scaled inputs, where reflection axes degenerate, are essentially never drawn.",
 ["src/qr.rs","src/householder.rs","src/reflection.rs"],
 [("Householder column elimination","householder.rs clear_column/reflection_axis_mut"),("Q assembly from stored axes","householder.rs assemble_q"),("R extraction with |diag|","qr.rs QRDecomp::into_r")],
 ["QR::qr","QRInto::qr_into","QRDecomp::generate_q","QRDecomp::into_r","QRDecomp::into_decomp"])

p("C02","QR solving and inversion are correct for invertible square systems",
 "For every invertible square matrix A and every right-hand side b (any number of columns, including zero), solving through the QR decomposition returns x with A*x = b, the transposed solve returns x with transpose(A)*x = b, and the inverse satisfies A*inv = inv*A = I, each to within rounding error amplified only by the condition of A. Measuring the variables (columns) in units of their own changes only the units of the answer.",
 ["inputs"],"all invertible square A and all b",
 "Tests compare a few thousand generic draws with absolute tolerances and a positive R diagonal of generic signs; structured matrices (permutations, negative pivots, triangular, zero pivots in A) and multi-column/zero-column b are not enumerated.",
 ["src/qr.rs","src/triangular.rs"],
 [("Q^T b in place then back substitution","qr.rs qt_mul, solve_into"),("forward substitution then Q","qr.rs solve_tr_into")],
 ["QRDecomp::solve","QRDecomp::solve_into","QRDecomp::solve_tr","QRDecomp::solve_tr_into","QRDecomp::inverse"])

p("C03","Least squares returns the minimiser (tall) or minimum-norm solution (wide)",
 "For every full-rank A and every b with matching rows, least squares returns x minimising ||A*x - b||: for tall A the residual is orthogonal to the column space of A, and for wide A the solution satisfies A*x = b exactly and has the smallest norm of all solutions. The by-reference and by-value forms agree. Measuring the variables in units of their own (columns of a tall A; equations, that is rows, of a wide A) changes only the units of the answer, not its quality.",
 ["inputs"],"all full-rank A of any shape and all b, including b outside the range of A",
 "The tests only use b = A*x (zero residual) and only check A*sol = b; neither optimality for inconsistent systems nor minimality of the norm is ever observed.",
 ["src/qr.rs"],[("dispatch on shape to solve_into / solve_tr_into","qr.rs least_squares_into")],
 ["LeastSquaresQr::least_squares","LeastSquaresQrInto::least_squares_into"])

p("C04","QR invertibility verdict gates every solving route",
 "If A has an exactly zero column (so QR finds an exactly zero pivot), the decomposition reports itself non-invertible and every solving route (solve, transposed solve, inverse, least squares in both orientations) fails with the non-invertible error instead of returning numbers. If A is full-rank and well-conditioned up to the units its columns (rows, if wide) are measured in, the verdict is invertible and none of these routes fails with that error, whatever the scale of A and of these units within the floating-point range.",
 ["inputs"],"all matrices with an exactly zero pivot and all well-conditioned matrices at any scale",
 "Tests try only the all-zero 2x2 and 2x3 matrices; partially zero matrices, zero pivots in a single position and tiny-scaled invertible matrices are not enumerated.",
 ["src/qr.rs"],[("is_invertible checked before substitution","qr.rs is_invertible, solve_into, solve_tr_into, inverse")],
 ["QRDecomp::is_invertible","QRDecomp::inverse","QRDecomp::solve*","least_squares*"])

p("C05","Cholesky returns the lower factor L with positive diagonal and L*L^T = A",
 "For every symmetric positive definite matrix every Cholesky variant succeeds and returns the unique lower-triangular factor L with positive diagonal and L*L^T = A to rounding; clean variants leave exact zeros above the diagonal. The 'dirty' variants leave the strictly upper triangle of the input bit-for-bit unchanged, and no variant's factor depends on the values stored above the diagonal. The accuracy is entry by entry, that is, unaffected by the unit each variable is measured in.",
 ["inputs"],"all SPD matrices, all API variants, all contents of the unused upper triangle",
 "Tests use A^T*A + I (generic, symmetric) only, never an input whose upper triangle differs from the lower, so what is read or clobbered above the diagonal is unobserved.",
 ["src/cholesky.rs"],[("column-wise in-place factorisation using only the lower triangle","cholesky.rs cholesky_inplace_dirty"),("zeroing of the upper part","cholesky.rs cholesky_inplace")],
 ["Cholesky::cholesky","Cholesky::cholesky_dirty","CholeskyInplace::*"])

p("C06","Cholesky accepts exactly the positive definite matrices",
 "Cholesky (and every solver built on it) succeeds on every symmetric positive definite matrix whose definiteness is not lost in rounding (judged after scaling every variable to a unit of its own, so a tiny diagonal entry alone is no reason to reject), and reports the not-positive-definite error for every symmetric matrix that is indefinite, negative or singular beyond rounding, whichever pivot reveals it. An input from which a NaN pivot arises is never reported as successfully factored.",
 ["inputs"],"all symmetric matrices, definite or not, including NaN entries",
 "Tests hold two rejected matrices (one indefinite 2x2 and zeros); rejection at later pivots, exact singularity and non-finite inputs are not covered, and every accepted matrix has eigenvalues >= 1.",
 ["src/cholesky.rs"],[("pivot test d <= 0","cholesky.rs cholesky_inplace_dirty")],
 ["Cholesky::cholesky","SolveC::solvec","InverseC::invc"])

p("C07","SPD solve and inverse are correct through every variant",
 "For every symmetric positive definite A and every b with matching rows (any number of columns), solvec in its by-reference, by-value and in-place forms returns x with A*x = b, and both inverse forms return the inverse of A, to within rounding error amplified only by the condition of A. This holds in every choice of units of the variables (D*A*D for diagonal D). All forms agree with one another, and invc leaves A unchanged.",
 ["inputs"],"all SPD A, all b, all variants",
 "Tests use generic A^T*A+I systems whose solution is random; structured couplings between forward and backward substitution (sparse patterns, identity blocks, zero-column b) are not enumerated.",
 ["src/cholesky.rs","src/triangular.rs"],[("L then L^T substitution","cholesky.rs solvec_inplace"),("inverse by solving against identity","cholesky.rs invc_inplace")],
 ["SolveC::solvec","SolveCInplace::*","InverseC::invc","InverseCInplace::invc_inplace"])

p("C08","Triangular solve uses only the named triangle and is backward stable",
 "For every square matrix with non-zero diagonal, every b and either triangle, the triangular solve returns x satisfying the system formed by that triangle alone, to within rounding error; entries outside the named triangle, even NaN, never influence the result, and each column of b is solved independently of the others. All three forms (by reference, by value, in place) agree.",
 ["inputs"],"all square A (both triangles populated), all b, both orientations",
 "Tests always zero the opposite triangle first, so reading it would go unnoticed, and test columns only through one generic right-hand side.",
 ["src/triangular.rs"],[("column-oriented substitution over row_iter/row_slice","triangular.rs solve_triangular_system_common")],
 ["SolveTriangular::solve_triangular","SolveTriangularInplace::*"])

p("C09","Triangular extraction and the triangularity test are exact",
 "Extracting a triangle keeps every entry on and inside the named triangle (diagonal included) bit-for-bit and sets every other entry to zero, for any square matrix over any element type with a zero. The triangularity test answers true exactly for square matrices whose entries strictly outside the named triangle are all zero, and extraction always yields a matrix that passes it.",
 ["inputs"],"all matrices and both triangles",
 "Tests show one 3x3 integer matrix; single-entry deviations at each position and larger or empty sizes are not covered.",
 ["src/triangular.rs"],[("index loops over the complement","triangular.rs triangular_inplace, is_triangular")],
 ["IntoTriangular::*","Triangular::is_triangular"])

p("C10","Tridiagonalisation: A = Q*T*Q^T, Q orthogonal, T symmetric tridiagonal",
 "For every non-empty symmetric matrix the tridiagonal decomposition yields an orthogonal Q and an exactly tridiagonal, exactly symmetric T with non-negative off-diagonal such that Q*T*Q^T reproduces the matrix to rounding. The diagonals reported separately equal those of T.",
 ["inputs"],"all symmetric matrices including ones already tridiagonal, diagonal, block-diagonal or rank-deficient",
 "Tests draw dense generic symmetric matrices, for which no reflection is ever skipped; zero sub-columns, where the skip path runs, have probability zero.",
 ["src/tridiagonal.rs","src/householder.rs"],[("two-sided Householder update","tridiagonal.rs sym_tridiagonal"),("skip when the reflected column is zero","tridiagonal.rs norm.is_some()")],
 ["SymmetricTridiagonal::sym_tridiagonal","TridiagonalDecomp::*"])

p("C11","Bidiagonalisation: A = U*B*Vt with semi-orthogonal U, Vt for every shape",
 "For every non-empty matrix the bidiagonal decomposition yields U with orthonormal columns, Vt with orthonormal rows and a square B, upper-bidiagonal when rows >= columns and lower-bidiagonal otherwise (as reported), with non-negative diagonals, such that U*B*Vt reproduces the matrix to rounding. The diagonals reported separately equal those of B, and B is exactly zero elsewhere.",
 ["inputs"],"all shapes (tall, square, wide, single row/column) and all ranks",
 "Tests draw generic dense matrices, so rows/columns that are already zero, rank deficiency and the last step of each orientation are not systematically exercised.",
 ["src/bidiagonal.rs","src/householder.rs"],[("alternating column/row elimination","bidiagonal.rs bidiagonal"),("orientation-dependent assembly","bidiagonal.rs generate_u, generate_vt, into_b")],
 ["Bidiagonal::bidiagonal","BidiagonalDecomp::*"])

p("C12","Symmetric eigendecomposition: A*V = V*diag(w) with orthogonal V",
 "For every symmetric matrix, eigh returns finite eigenvalues w and an orthogonal V with A*V = V*diag(w), both to within rounding error of the magnitude of A. This holds for repeated, zero, clustered and widely graded eigenvalues, for decoupled or already diagonal matrices, and for the empty matrix.",
 ["inputs"],"all symmetric matrices of either float type",
 "1000 generic draws with distinct, well separated eigenvalues and a 1e-5 tolerance; deflation paths (exact zeros, clusters, mid-matrix splits) and precision below 1e-5 are not observed.",
 ["src/eigh.rs","src/tridiagonal.rs","src/givens.rs"],[("implicit QR with Wilkinson shift","eigh.rs symmetric_eig"),("deflation","eigh.rs delimit_subproblem"),("2x2 closed form","eigh.rs compute_2x2_eigvals")],
 ["Eigh::eigh","EighInto::eigh_into"])

p("C13","Eigenvalues are exactly the spectrum, with multiplicity, in every variant",
 "For every symmetric matrix, the eigenvalues returned without eigenvectors (by reference or by value) are the spectrum with correct multiplicities, to within rounding error of the magnitude of A, and agree with those returned with eigenvectors. In particular the number of eigenvalues below any threshold equals the matrix's exact inertia at that threshold.",
 ["inputs"],"all symmetric matrices and all thresholds",
 "No test has an independent oracle for the spectrum: they compare the routine with itself and with a few hand-written cases.",
 ["src/eigh.rs"],[("same iteration with and without eigenvectors","eigh.rs symmetric_eig(eigenvectors flag)")],
 ["EigValsh::eigvalsh","EigValshInto::eigvalsh_into"])

p("C14","SVD: A = U*diag(s)*Vt with orthonormal factors and non-negative s",
 "For every non-empty matrix the SVD returns U with orthonormal columns, Vt with orthonormal rows, and non-negative singular values s such that U*diag(s)*Vt reproduces the matrix to within rounding error of its magnitude. This holds for every shape and rank, including zero, nearly singular and widely graded matrices.",
 ["inputs"],"all matrices of either float type",
 "1000 generic draws, which are never rank-deficient or nearly so: the zero-diagonal chasing branches and the ill-conditioned 2x2 step never run.",
 ["src/svd.rs","src/bidiagonal.rs","src/givens.rs"],[("Golub-Kahan iteration","svd.rs svd"),("zero-diagonal chasing","svd.rs cancel_horizontal/vertical_off_diagonal_elt"),("2x2 closed form","svd.rs compute_2x2_uptrig_svd"),("sign correction","svd.rs svd")],
 ["SVD::svd","SVDInto::svd_into"])

p("C15","Singular values are exact and independent of which vectors are requested",
 "For every matrix the singular values agree, to within rounding error of its magnitude, with the exact singular spectrum (including multiplicity and rank) whichever of U and Vt are requested, and are the same for the matrix and its transpose. Exactly the requested factors are returned, and each returned factor is the same as when both are requested.",
 ["inputs","configurations"],"all matrices x all four combinations of requested factors x transposition",
 "Tests compare combinations only on generic full-rank draws where the branch-dependent rescaling cancels; no independent oracle for the values exists.",
 ["src/svd.rs"],[("calc_u/calc_v flags threaded through the iteration","svd.rs svd, compute_2x2_uptrig_svd")],
 ["SVD::svd","SVDInto::svd_into"])

p("C16","Decompositions always terminate without panicking, even on NaN and infinity",
 "Every eigenvalue, singular value, QR, Cholesky, bidiagonal and tridiagonal call on any matrix of a shape it accepts, with any mixture of finite, huge, tiny, infinite or NaN entries and symmetric or not, returns in bounded time and never panics. For finite inputs that do not overflow the result contains no NaN.",
 ["inputs"],"all element values including NaN, infinities, subnormals and extreme magnitudes",
 "The iterative loops have no iteration cap; tests feed only finite values of moderate size, so non-convergence cannot show.",
 ["src/eigh.rs","src/svd.rs","src/cholesky.rs","src/qr.rs"],[("loop exits on deflation","eigh.rs/svd.rs delimit_subproblem")],
 ["Eigh","EigValsh","SVD","QR","Cholesky","Bidiagonal","SymmetricTridiagonal"])

p("C17","Sorting a decomposition permutes values and vectors together, in order",
 "Sorting an eigen- or singular-value decomposition ascending or descending returns the same values in monotone order with each value still paired with its own vector (column of V or U, row of Vt), losing and duplicating nothing, whichever of the factors are present. Sorting only the values gives the same sequence, works on every array the eigenvalue routines return, and any ordering of already-sorted input is stable under repetition.",
 ["inputs"],"all value multisets and permutations, both orders, all combinations of present factors",
 "Tests only sort decompositions of generic matrices with distinct values and check reconstruction; ties, negative zero, absent factors and non-contiguous values are not exercised.",
 ["src/eigh.rs","src/svd.rs"],[("index sort then gather","eigh.rs EigSort, svd.rs SvdSort")],
 ["EigSort::*","SvdSort::*"])

p("C18","Borrowing calls leave inputs intact; in-place calls touch only their view",
 "Every method that takes its operand by shared reference leaves it bit-for-bit unchanged, and its result agrees with the consuming and in-place variants of the same operation. Every method that works in place on a mutable view modifies nothing in the underlying storage outside that view.",
 ["inputs","programs"],"all operations x all API variants x all view placements",
 "Tests only use owned arrays and compare variants on a few generic inputs; storage around a view is never inspected.",
 ["src/qr.rs","src/cholesky.rs","src/triangular.rs","src/eigh.rs","src/svd.rs","src/reflection.rs"],[("to_owned before consuming","by-reference trait impls"),("unchecked indexing within the view","index.rs")],
 ["all public traits"])

p("C19","Results do not depend on memory layout or ownership of the operands",
 "For equal matrix contents every operation returns equal results to within rounding, whether operands are row-major, column-major, strided, reversed along either axis, transposed, sub-views of a larger array or broadcast, and whether owned or viewed. This includes follow-up operations on the results (sorting, generating factors, solving).",
 ["inputs","configurations"],"all operations x all memory layouts of each operand independently",
 "Tests vary only axis inversion and transposition of owned square inputs in property draws and never compare layouts with each other; strided views and mixed operand layouts are absent.",
 ["src/index.rs","src/triangular.rs","src/cholesky.rs","src/householder.rs","src/eigh.rs","src/svd.rs"],[("all access through ndarray indexing","index.rs and slicing throughout")],
 ["all public traits"])

p("C20","Shape contracts: every mismatch yields its documented error, never a panic",
 "For every operand shape, including empty dimensions, an operation either succeeds with outputs of the documented dimensions or fails with the specific documented error carrying the actual dimensions (not square, not thin, empty, wrong rows, non-invertible or not positive definite); it never panics or reads out of bounds. Which one happens depends on the shapes alone for well-behaved contents.",
 ["inputs"],"all shape combinations of all operands, including zero rows/columns",
 "Tests show about a dozen mismatches; combinations of shapes (non-square A with each b, empty dims in one axis, zero-column b) are not enumerated.",
 ["src/lib.rs","src/triangular.rs","src/qr.rs","src/cholesky.rs","src/svd.rs","src/eigh.rs","src/bidiagonal.rs","src/tridiagonal.rs"],[("check_square and explicit shape checks","lib.rs check_square; qr.rs; triangular.rs")],
 ["all public traits","LinalgError"])

p("C21","Norms equal their definitions over all elements and satisfy the norm axioms",
 "For every array of any dimensionality and layout, the L1, L2 and max norms equal the sum of magnitudes, the root of the sum of squares and the largest magnitude over all its elements (zero for empty arrays), to rounding whenever the squares neither overflow nor underflow. They are non-negative, zero only for zero arrays, absolutely homogeneous, satisfy the triangle inequality and max <= L2 <= L1.",
 ["inputs"],"all arrays of dimension 0 to 3, all layouts",
 "One 2x2 example.",["src/norm.rs"],[("iterator folds","norm.rs")],["Norm::*"])

p("C22","Plane reflection is the affine reflection, an involution and an isometry",
 "For every unit axis and bias, reflecting the columns (or rows) of a matrix maps each column (row) v to v - 2*(axis.v - bias)*axis independently of the others; applying it twice restores the input, points on the plane are fixed, and with zero bias norms are preserved. Reflecting rows equals reflecting the columns of the transpose.",
 ["inputs"],"all unit axes, biases and matrices",
 "Two tests with one coordinate axis and one bias; oblique axes, wide matrices and views are not covered.",
 ["src/reflection.rs"],[("column-wise scaled_add","reflection.rs reflect_cols/reflect_rows")],["Reflection::*"])

p("C23","LOBPCG results are truthful: orthonormal vectors, true residuals, ordered",
 "Whenever the LOBPCG solver returns a result (with or without an error) for a symmetric operator and a block at most a fifth of the problem size, the eigenvectors are orthonormal, the eigenvalues are sorted in the requested order and are the Rayleigh quotients of the vectors, and the reported residual norms are the true values of ||A*x - lambda*x||. This holds for every starting block of full rank, iteration budget, tolerance and preconditioner, and for every unit of measurement of the operator in which the squares of its residuals stay within the range of the float type.",
 ["inputs","histories"],"all operators, starting blocks, budgets, tolerances, preconditioners",
 "Tests run one fixed seed to convergence and look only at eigenvalues and the reported residuals, never checking that the latter are true, nor intermediate budgets.",
 ["src/lobpcg/algorithm.rs"],[("best_result tracking","algorithm.rs main loop"),("AX updated by linear combination instead of re-application","algorithm.rs x/ax update")],
 ["lobpcg()","TruncatedEig::decompose"])

p("C24","LOBPCG finds the extreme eigenpairs in the requested order",
 "For a symmetric operator, a generic starting block of at most a fifth of the problem size and a sufficient iteration budget, the solver converges, to the tolerance requested down to the precision of the float type, to the k largest (or k smallest) eigenvalues with multiplicity and matching eigenvectors, in that order. A positive definite preconditioner changes only the speed, not the answer; a change of the operator's unit of measurement (within the range in which squares are representable) changes only the unit of the answer.",
 ["inputs","configurations"],"all spectra (repeated, negative, clustered, zero), orders, block sizes, preconditioners",
 "Tests cover three spectra with distinct eigenvalues, one seed, no preconditioner at all.",
 ["src/lobpcg/algorithm.rs","src/lobpcg/eig.rs"],[("Rayleigh-Ritz on span{X,R,P}","algorithm.rs"),("order handling","algorithm.rs sorted_eig")],
 ["lobpcg()","TruncatedEig::decompose"])

p("C25","LOBPCG constraints: results lie in the complement of the constraint space",
 "Given any full-rank constraint matrix (orthonormal or not) alongside a symmetric operator leaving its column space invariant, and a starting block that stays of full rank next to the constraints, every returned eigenvector is orthogonal to all constraint columns, and once converged the eigenvalues are the extreme ones of the operator on that orthogonal complement.",
 ["inputs"],"all full-rank constraint matrices, including scaled and skewed bases",
 "The one constrained test uses two standard basis vectors (orthonormal), for which a missing normalisation is invisible.",
 ["src/lobpcg/algorithm.rs"],[("projection through the Cholesky factor of Y^T Y","algorithm.rs apply_constraints")],
 ["lobpcg(y)","TruncatedEig::orthogonal_to"])

p("C26","The truncated eigen iterator enumerates each eigenpair once, in order, and stops",
 "Iterating a truncated eigenproblem one pair at a time yields eigenpairs of the matrix in the requested order, mutually orthogonal and orthogonal to any preset constraints, never repeating a direction and never yielding more vectors than the dimension left by the constraints; after that it returns nothing and keeps returning nothing. No sequence of steps panics.",
 ["histories","inputs"],"all iteration histories, step sizes, preset constraints, spectra",
 "One test takes three steps of a 20x20 diagonal problem; exhausting the iterator, repeated eigenvalues and preset constraints are untested.",
 ["src/lobpcg/eig.rs"],[("remaining counter and constraint accumulation","eig.rs TruncatedEigIterator::next")],
 ["TruncatedEig::into_iter","into_iter_step_size","TruncatedEigIterator::next"],
 [dict(name="remaining",meaning="dimensions not yet returned",where="TruncatedEigIterator")])

p("C27","Truncated SVD returns true singular triplets, never NaN, for both orders",
 "For every matrix and k at most a fifth of its smaller dimension or equal to it, truncated SVD yields the k largest (descending) or smallest (ascending) singular values with semi-orthogonal factors satisfying A*v = s*u for every non-zero s, dropping numerically zero ones when the largest are requested. Values are always non-negative numbers, no vector contains NaN, values() and values_vectors() agree, requesting zero triplets gives an empty result, and requesting more than the smaller dimension an error. All this holds in every unit of measurement of the matrix in which fourth powers of its entries stay within the range of the float type.",
 ["inputs"],"all shapes (tall, wide, square), ranks, orders and k",
 "Tests use full-rank matrices with the largest order only; the smallest order, rank deficiency and zero requests are never run.",
 ["src/lobpcg/svd.rs"],[("Gram operator on the smaller side","svd.rs decompose"),("cut-off and square root","svd.rs singular_values_with_indices")],
 ["TruncatedSvd::decompose","TruncatedSvdResult::values","TruncatedSvdResult::values_vectors"])

p("C28","Checked and unchecked builds, and feature sets, behave identically",
 "For every input the library computes bit-identical results and errors whether built with or without debug assertions (where element access is bounds-checked or unchecked respectively) and with or without the iterative feature. No access is ever out of bounds.",
 ["configurations","inputs"],"debug/release x feature sets x all inputs",
 "Tests run in one build at a time and never compare builds; an unchecked out-of-bounds access in release need not fail any test.",
 ["src/index.rs","Cargo.toml"],[("cfg(debug_assertions) switch between get and uget","index.rs")],["all public operations"])

p("C29","Eigen- and singular values scale with the matrix over the whole float range",
 "Multiplying a matrix by any power of two that keeps its entries representable multiplies its eigenvalues and singular values by exactly that factor (up to rounding) and leaves the vectors valid, from subnormal-adjacent to near-overflow magnitudes. Negating a symmetric matrix negates its spectrum, and adding a multiple of the identity shifts it.",
 ["inputs"],"all matrices x all representable scale factors",
 "All tested magnitudes lie in [1e-2, 1e2]; the normalisation by the largest entry is never needed there.",
 ["src/eigh.rs","src/svd.rs"],[("division by amax before and multiplication after","eigh.rs symmetric_eig, svd.rs svd")],
 ["Eigh","EigValsh","SVD"])

p("C30","Decomposition objects are reusable: any call order gives the same answers",
 "On a QR, tridiagonal or bidiagonal decomposition object, any sequence of its borrowing operations in any order and number (generating factors, solving, inverting, asking invertibility, cloning) returns the same results as on a fresh decomposition, including after operations that failed; a clone is independent of and equivalent to its original.",
 ["histories"],"all operation sequences up to a bound on all decomposition objects",
 "Tests call each accessor once in one fixed order.",
 ["src/qr.rs","src/bidiagonal.rs","src/tridiagonal.rs"],[("compact storage shared by all accessors","QRDecomp, BidiagonalDecomp, TridiagonalDecomp fields")],
 ["QRDecomp","BidiagonalDecomp","TridiagonalDecomp"])

p("C31","LOBPCG keeps the best iterate and respects its iteration budget",
 "With the same problem and start, the summed residual norm of the returned result never increases as the iteration budget grows until it converges (a converged result is always preferred), the operator is applied at most once per iteration plus once for the start and always to blocks of the problem's row count and at most the start's column count, and a zero budget still returns the orthonormalised start's Ritz pairs. If the iteration breaks down, the best result so far accompanies the error.",
 ["histories","fault_sequences"],"all iteration budgets and all break points of a run",
 "Tests always run to convergence with one budget and never observe calls to the operator or a breakdown.",
 ["src/lobpcg/algorithm.rs"],[("best_result update on smaller sum","algorithm.rs"),("iter countdown","algorithm.rs")],
 ["lobpcg()","operator callback","preconditioner callback"])

p("C32","A successful LOBPCG return means every residual met the tolerance",
 "A LOBPCG result returned as success (rather than alongside an error) has converged: the residual norm of every returned pair is at most the requested tolerance. If the iteration budget runs out first, the best result is returned alongside an error, as documented.",
 ["inputs","histories"],"all problems, tolerances and iteration budgets",
 "Tests treat success and error alike and never look at whether success implies convergence.",
 ["src/lobpcg/algorithm.rs","src/lobpcg/eig.rs","src/lobpcg/mod.rs"],[("active mask empty or iter == 0 leads to success","algorithm.rs main loop")],
 ["lobpcg()","TruncatedEig::decompose"])

p("C33","Results are a function of the arguments alone, in any history or schedule",
 "Every operation is a function of its arguments (and, for the randomised solvers, of the state of the generator handed in): the same call gives bit-identical results and errors in every process, on any thread, after any sequence of other calls (successful or failing), while calls run concurrently on other threads, and from within the operator or preconditioner callbacks of a running LOBPCG, whose own result such calls do not change either. The library keeps no state between calls that could be observed.",
 ["histories","schedules"],"all call histories, threads and interleavings of concurrent or nested calls",
 "Every test runs each operation once on fresh operands and never compares a call with the same call in another history; the order tests run in is not explored.",
 ["src"],[("free functions and methods without static or thread-local state","all modules"),("operator and preconditioner callbacks","lobpcg/algorithm.rs lobpcg")],
 ["all public operations","lobpcg() callbacks"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
