#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run by hand after an edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "ntl-extras/mat_lzz_pX_extra/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=state or [], observe_at=observe or [], hook_needed=hook))
    d_note[id] = note or ""
    P.append(d)
d_note = {}

p("C01", "Polynomial matrix products are exact",
  "Every polynomial-matrix product the library offers (matrix by matrix, by vector, by constant matrix, truncated, and each selectable algorithm within its documented domain) returns exactly the product of its operands over the current coefficient ring. This holds for all dimensions including zero and one, all degree patterns including zero matrices and unbalanced degrees, every kind of modulus, and when the output is the same object as an input.",
  ["inputs", "configurations"], "all operand shapes, degree profiles, moduli (FFT, small, large primes), algorithm choices and aliasing patterns",
  "the multiplication tests compare a few fixed shapes and sizes against a variant of the same library, and the main one is too slow to run; dispatch is by thresholds, so most (shape, degree, modulus) cells are never sampled",
  [M+"src/mat_lzz_pX_multiply.cpp", M+"src/mat_lzz_pX_multiply_evaluate_FFT.cpp", M+"src/mat_lzz_pX_multiply_evaluate_dense.cpp", M+"src/mat_lzz_pX_multiply_evaluate_geometric.cpp", M+"src/mat_lzz_pX_multiply_3_primes.cpp", M+"src/mat_lzz_pX_multiply_naive.cpp", M+"src/mat_lzz_pX_multiply_transform.cpp", M+"src/mat_lzz_pX_arith.cpp", M+"mat_lzz_pX_multiply.h"],
  [("multiply dispatch by prime type, degree, dimension", M+"src/mat_lzz_pX_multiply.cpp"), ("FFT / Vandermonde / 3-primes CRT / Waksman / bilinear transforms", M+"src/")],
  observe=["return values of multiply*, operator*, mul_trunc, mul"])

p("C02", "Middle products are exact",
  "Every middle product, of univariate polynomials and of polynomial matrices, returns exactly the slice of the product that it is documented to return, for every pair of degree parameters and all operands within the documented degree bounds. The result does not depend on which algorithm the library selects or on whether the output is the same object as an input.",
  ["inputs", "configurations"], "all operand shapes, degree parameters (dA, dB), moduli, algorithm variants and aliasing patterns",
  "the matrix middle-product test is skipped as too slow, the univariate one checks balanced sizes only",
  [M+"src/mat_lzz_pX_middle_product.cpp", M+"src/mat_lzz_pX_middle_product_evaluate_FFT.cpp", M+"src/mat_lzz_pX_middle_product_evaluate_dense.cpp", M+"src/mat_lzz_pX_multiply_3_primes.cpp", M+"src/mat_lzz_pX_t_multiply_evaluate.cpp", "ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp"],
  [("FFT wrap-around middle product", M+"src/mat_lzz_pX_middle_product_evaluate_FFT.cpp"), ("transposed Karatsuba", "ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp")],
  observe=["middle_product*, middle_FFT, t_multiply_evaluate_geometric"])

p("C03", "Precomputed multipliers give the exact product on every reuse",
  "A left-multiplier object built from a matrix A and a degree bound returns exactly A times B for every right-hand side B of degree at most the bound, in any sequence of uses, and reports A's dimensions and degrees. Earlier uses never influence later results, and building or using one leaves the current modulus as it was.",
  ["inputs", "histories", "configurations"], "all matrices A, bounds, and all sequences of right-hand sides of varying width and degree, interleaved across several live multipliers and modulus switches",
  "the multiplier test is skipped as too slow and multiplies once per object; state carried across calls is not exercised",
  [M+"src/mat_lzz_pX_lmultiplier.cpp", M+"mat_lzz_pX_multiply.h"],
  [("stored FFT/geometric/Vandermonde evaluations of A", M+"src/mat_lzz_pX_lmultiplier.cpp"), ("3-primes multiplier switching moduli", M+"src/mat_lzz_pX_lmultiplier.cpp")],
  state=[dict(name="multiplier precomputation", meaning="evaluations of A, points, FFT length", where=M+"mat_lzz_pX_multiply.h")],
  observe=["get_lmultiplier(...)->multiply"])

p("C04", "Polynomial matrix arithmetic and data-movement follow their definitions",
  "Addition, subtraction, negation, scaling, shifting, truncation, reversal, transposition, coefficient access, evaluation, conversion, joining and partial linearization of polynomial vectors and matrices produce exactly the object their documentation defines, with entries in normalized form. This includes empty and zero objects, shift and truncation amounts beyond the degree, per-row and per-column variants, and outputs that alias inputs where documented as allowed.",
  ["inputs"], "all shapes (including empty), degree patterns, shift/truncation parameters and aliasing patterns",
  "the existing utility test crashes and the others only print or run a fixed shape",
  [M+"src/mat_lzz_pX_utils.cpp", M+"src/mat_lzz_pX_arith.cpp", M+"src/mat_lzz_pX_linearization.cpp", M+"mat_lzz_pX_utils.h", M+"mat_lzz_pX_arith.h", "ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp"],
  [("entry-wise loops over coefficients", M+"src/mat_lzz_pX_utils.cpp")], observe=["all functions of mat_lzz_pX_utils.h and mat_lzz_pX_arith.h"])

p("C05", "Degree, pivot and reduced-form queries match their definitions",
  "Row and column degrees, pivots, degree matrices, leading matrices and the reduced / weak Popov / ordered weak Popov / Popov tests, with or without a shift and in both orientations, agree with the documented definitions for every matrix. The strongest-form query returns the strongest form that the corresponding test accepts, and each form implies the weaker ones.",
  ["inputs"], "all matrices (with zero rows/columns, ties, rectangular shapes) and all integer shifts",
  "the degree test prints results for one fixed matrix; predicates are only exercised positively, as part of other tests",
  [M+"src/mat_lzz_pX_forms.cpp", M+"mat_lzz_pX_forms.h"],
  [("shifted degree conventions for zero entries/vectors", M+"src/mat_lzz_pX_forms.cpp")], observe=["row_degree, col_degree, row_pivots, col_pivots, *_leading_matrix, degree_matrix*, is_*_popov..., get_*_polmatform"])

p("C06", "Approximant bases are true minimal bases in the promised form",
  "For every polynomial matrix, order and shift, each approximant-basis routine returns a square matrix whose rows generate exactly the module of approximants at that order, in the promised shifted (ordered weak Popov or Popov) form. The shift argument or degree output then equals the shifted row degree of the returned basis, and all routines agree on the canonical Popov basis.",
  ["inputs", "configurations"], "all matrices (including rank-deficient, zero and unbalanced ones), orders, shifts, prime fields and algorithm choices",
  "the approximant tests are among those skipped for running too long, and sample generic random matrices where special branches (rank deficiency, ties, zero columns) never occur",
  [M+"src/mat_lzz_pX_approximant.cpp", M+"src/mat_lzz_pX_pmbasis.cpp", M+"mat_lzz_pX_approximant.h"],
  [("iterative basis update with residuals", M+"src/mat_lzz_pX_approximant.cpp"), ("mbasis1 kernel with shift-dependent permutation", M+"src/mat_lzz_pX_pmbasis.cpp"), ("divide and conquer via residual middle product", M+"src/mat_lzz_pX_pmbasis.cpp")],
  observe=["approximant_basis, appbas_iterative*, popov_*, mbasis*, pmbasis*, mbasis1"])

p("C07", "Interpolant bases are true minimal bases in the promised form",
  "For every polynomial matrix, list of distinct points and shift, each interpolant-basis routine returns a square matrix whose rows generate exactly the module of row vectors p with p(x_i)F(x_i)=0 at all points, in the promised shifted form. The shift argument then equals the shifted row degree of the basis; this holds for general and geometric points and for input given as a matrix or as its evaluations.",
  ["inputs", "configurations"], "all matrices or evaluation lists, point sets, offsets, shifts and prime fields large enough for the points",
  "both interpolant tests are skipped as too slow, and they use generic random input only",
  [M+"src/mat_lzz_pX_interpolant.cpp", M+"mat_lzz_pX_interpolant.h"],
  [("iteration over points with residual evaluations", M+"src/mat_lzz_pX_interpolant.cpp"), ("divide and conquer over half of the points", M+"src/mat_lzz_pX_interpolant.cpp")],
  observe=["mbasis_*, pmbasis, pmbasis_geometric, popov_* (points versions)"])

p("C08", "Kernel bases are true minimal kernel bases",
  "For every polynomial matrix and admissible shift, each kernel-basis routine returns a matrix whose rows are annihilated by the input and generate its whole left kernel, in shift-reduced form (ordered weak Popov form, which the library's own verifier asks for by default). The reported shifted row degrees and pivot indices are those of the returned basis, and an input of full row rank yields a basis with no rows.",
  ["inputs", "configurations"], "all matrices (any rank, shape, zero rows and columns, unbalanced degrees), shifts and algorithm choices",
  "the kernel test is skipped as too slow and samples generic matrices",
  [M+"src/mat_lzz_pX_kernel.cpp", M+"mat_lzz_pX_kernel.h"],
  [("one high-order approximant/interpolant basis", M+"src/mat_lzz_pX_kernel.cpp"), ("Zhou-Labahn-Storjohann recursion", M+"src/mat_lzz_pX_kernel.cpp")],
  observe=["kernel_basis*"])

p("C09", "Generic approximants, matrix fractions and block sequences are exact",
  "On inputs satisfying their documented genericity and dimension requirements, the specialised approximant and matrix-Pade routines return the documented approximant basis, its top rows, or the denominator of the documented shape, and so do the routines that rebuild a matrix denominator from a sequence or from evaluations. The power and block sequences generated from a polynomial modulo another are exactly the documented coefficients.",
  ["inputs", "configurations"], "all generic inputs, all orders (odd, even, around recursion thresholds), dimensions and prime fields",
  "tests use one or two (dimension, order) pairs, and some only have to run",
  [M+"src/mat_lzz_pX_pmbasis_generic.cpp", M+"src/mat_lzz_pX_sequence.cpp", M+"mat_lzz_pX_approximant.h", M+"mat_lzz_pX_sequence.h"],
  [("2n x n specialised recursion, orders kept even", M+"src/mat_lzz_pX_pmbasis_generic.cpp"), ("baby steps giant steps sequence", M+"src/mat_lzz_pX_sequence.cpp")],
  observe=["mbasis_generic_2n_n_*, pmbasis_generic_2n_n*, matrix_pade_generic*, gen_pows, gen_sequence, matrix_recon_*"])

p("C10", "Truncated inverses and power-series solutions are exact",
  "For a square polynomial matrix with invertible constant term, every truncated-inverse, high-order-lifting and series-solving routine returns exactly the expansion of the inverse (or of the inverse times the right-hand side) at the requested precision, with degree below that precision. This holds for every precision, threshold argument, algorithm choice and allowed aliasing.",
  ["inputs", "configurations"], "all matrices with invertible constant coefficient, right-hand sides, precisions (below, at, far above the degree), crossover thresholds, prime types",
  "tests cover a small grid of sizes with default thresholds; crossover boundaries and aliasing are not swept",
  [M+"src/mat_lzz_pX_inv_trunc.cpp", M+"src/mat_lzz_pX_linsolve.cpp", M+"mat_lzz_pX_inverse.h", M+"mat_lzz_pX_linsolve.h"],
  [("Newton iteration: FFT, middle product, geometric", M+"src/mat_lzz_pX_inv_trunc.cpp"), ("high-precision block lifting", M+"src/mat_lzz_pX_linsolve.cpp")],
  observe=["inv_trunc, plain_inv_trunc, newton_inv_trunc_*, solve_series*, high_order_lift_inverse_odd"])

p("C11", "Polynomial linear systems are solved exactly",
  "For a square polynomial matrix A with invertible constant coefficient and a vector b, the system solvers return a vector u and a nonzero denominator d with A u = d b. When b is not zero the answer is in lowest terms up to a constant, so the two solvers agree.",
  ["inputs", "configurations"], "all nonsingular systems, degree patterns, special right-hand sides (zero, multiples of A's columns, common factors) and prime fields large enough",
  "the solver test is skipped as too slow and the kernel-based one fails at the pinned commit",
  [M+"src/mat_lzz_pX_linsolve.cpp", M+"mat_lzz_pX_linsolve.h"],
  [("vector rational reconstruction", M+"src/mat_lzz_pX_linsolve.cpp"), ("kernel of the augmented matrix", M+"src/mat_lzz_pX_linsolve.cpp")],
  observe=["linsolve_via_series, linsolve_via_kernel"])

p("C12", "Determinants are exact",
  "Every determinant routine returns the determinant of its argument exactly, or up to a nonzero constant where so documented, and a routine that reports success or failure never reports success with a wrong answer when its documented assumptions hold. The determinant verifier accepts the true determinant and rejects wrong ones.",
  ["inputs", "configurations"], "all square matrices (singular, diagonal, with low-degree determinants, any degree profile), all supported dimensions and fields large enough",
  "one (dimension, degree) pair of a random matrix is tested",
  [M+"src/mat_lzz_pX_determinant.cpp", M+"mat_lzz_pX_determinant.h"],
  [("evaluation/interpolation, minors, kernel-based triangularization, linear solving", M+"src/mat_lzz_pX_determinant.cpp")],
  observe=["determinant_*, verify_determinant"])

p("C13", "Matrix division with remainder and basis reduction are exact",
  "Dividing A by a row-reduced square matrix B yields Q and R with A = B Q + R and each row of R of degree below the corresponding row degree of B. Basis reduction either reports failure because the constant term is singular or returns a row-reduced matrix generating exactly the same row space.",
  ["inputs"], "all dividends (any shape, degrees below or above the divisor's) and all row-reduced divisors with arbitrary row degrees including zero",
  "the division test samples one random degree profile per run; the reduction test is skipped as too slow",
  [M+"src/mat_lzz_pX_division.cpp", M+"src/mat_lzz_pX_reduction.cpp", M+"mat_lzz_pX_extra.h"],
  [("reversal + truncated inverse", M+"src/mat_lzz_pX_division.cpp"), ("fraction reconstruction", M+"src/mat_lzz_pX_reduction.cpp")],
  observe=["quo_rem, reduced_form_gjv"])

p("C14", "Multipoint evaluation, interpolation and their transposes are exact",
  "For general, geometric and FFT point sets, evaluation returns the values of the polynomial at the reported points in order, interpolation is its exact inverse, and the transposed operations are exactly the transposes of these maps; the vector and matrix versions act entry by entry. Repeated and interleaved uses of one object, its copies, and any setting of its algorithm switches or degree preparation never change results.",
  ["inputs", "histories", "configurations"], "all point sets and lengths, polynomials of every admissible degree, output sizes, sequences of calls on one object, algorithm flags, moduli",
  "tests walk small lengths with a fresh object and default flags; state carried inside the object (workspaces, prepared degrees, flags) is not exercised",
  ["ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint.cpp", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp", "ntl-extras/lzz_pX_CRT/lzz_pX_CRT.h"],
  [("subproduct tree and its transposed traversal", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp"), ("chirp transforms with FFT or middle products", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp")],
  state=[dict(name="workspaces, prepared degrees, FFT flags", meaning="mutable state inside evaluation objects", where="ntl-extras/lzz_pX_CRT/lzz_pX_CRT.h")],
  observe=["evaluate*, interpolate*, t_evaluate*, t_interpolate*, mul_left/right, inv_mul_left/right, get_point(s), to_dense"])

p("C15", "Chinese remaindering and bilinear transforms round-trip exactly",
  "For pairwise coprime squarefree moduli, multi-reduction returns the remainders of any polynomial modulo each modulus and combination returns the unique polynomial of degree below the sum of the degrees with those remainders, so the two are mutually inverse; the product tree's root is the product of the moduli. The small-degree forward and backward transforms recover the exact product of any two polynomials of the supported length.",
  ["inputs", "histories"], "all families of coprime moduli (any count, unequal degrees, degree-one moduli, a single modulus), polynomials of arbitrary degree, all small lengths",
  "the CRT test uses random moduli of one degree and a fixed range of counts",
  ["ntl-extras/lzz_pX_CRT/src/lzz_pX_CRT.cpp", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Transform.cpp", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Transform_naive.cpp", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Transform_montgomery.cpp"],
  [("subproduct tree with cofactors", "ntl-extras/lzz_pX_CRT/src/lzz_pX_CRT.cpp"), ("Karatsuba/Montgomery formulas", "ntl-extras/lzz_pX_CRT/src/lzz_pX_Transform_montgomery.cpp")],
  observe=["zz_pX_CRT::multimod/combine/master/moduli, build_subproduct_tree, zz_pX_Transform_*"])

p("C16", "Scalar, vector and univariate helpers are exact",
  "Power-series division, Taylor shift, shifted addition, monicity tests, entry-wise vector inversion, multiplicative order and the special constant matrices return exactly what their documentation defines. Searching for an element of large order returns either zero or an element that really satisfies the requested order (and, in strong mode, unit) conditions.",
  ["inputs", "configurations"], "all polynomials, precisions, shift amounts, vectors, moduli (prime and, where supported, composite) and aliasing patterns",
  "tests sample a few sizes over one or two primes; boundary sizes and small characteristics are barely touched",
  ["ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp", "ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp", "ntl-extras/vec_lzz_p_extra/src/vec_lzz_p_extra.cpp", "ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp"],
  [("naive / Newton series division", "ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp"), ("divide-and-conquer and factorial-based Taylor shift", "ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp")],
  observe=["InvTruncMul, shift, get_shift, add_LeftShift, inv, inv_naive, precomp, order, element_of_order, Z_lzz_p, J_lzz_p, diagonal_matrix"])

p("C17", "Structured matrices over the field act as their dense form",
  "For every structured matrix class over the field (Hankel, Toeplitz, triangular Toeplitz, circulant, Toeplitz-like, Hankel-like, Cauchy, Cauchy-like, mosaic, Sylvester), the dense form is the matrix its defining data describe, and left and right multiplication by vectors and matrices, entry and block accessors, displacement operators and generators all agree exactly with that dense form.",
  ["inputs", "configurations"], "all sizes (one, rectangular both ways, unequal blocks, for Hankel, Toeplitz and Cauchy also without rows or columns), all defining data including zeros, all moduli, single vectors and blocks of columns",
  "each class has a test with a fixed list of sizes and random dense data; rectangular extremes and sparse data are rarely met",
  ["ntl-extras/structured_lzz_p/structured_lzz_p.h"] + ["ntl-extras/structured_lzz_p/src/%s_lzz_p.cpp" % c for c in "hankel toeplitz lower_triangular_toeplitz circulant_row circulant_column toeplitz_like_plus toeplitz_like_minus hankel_like_plus hankel_like_minus cauchy_geometric cauchy_like_geometric mosaic_hankel mosaic_toeplitz sylvester".split()],
  [("FFT-based product with stored transforms", "ntl-extras/structured_lzz_p/src/"), ("generators of the displacement", "ntl-extras/structured_lzz_p/src/")],
  observe=["mul_right, mul_left, to_dense, operator(), *_of_block, phi_plus_generators, *_phi_plus/minus"])

p("C18", "Structured solvers and inverses are exact and report singularity honestly",
  "Solving with, or inverting, a Cauchy-like, mosaic Hankel, mosaic Toeplitz or Sylvester matrix either reports success, and then the returned vector solves the system (or the returned structured inverse is the true inverse), or reports that the matrix is singular, inconsistent or out of luck; success is never reported with a wrong answer, and generic invertible input succeeds.",
  ["inputs", "configurations"], "all sizes and block layouts, invertible, singular and rank-profile-deficient matrices, consistent and inconsistent right-hand sides, crossover thresholds, prime fields large enough",
  "the mosaic inversion/solve tests fail at the pinned commit, the Cauchy-like ones are skipped as too slow, and the rest use invertible random input",
  ["ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp", "ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp", "ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp", "ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp"],
  [("recursive / iterative structured elimination", "ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp"), ("reduction mosaic -> Cauchy-like with randomization", "ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp")],
  observe=["solve_grp, invert_leading_principal_minor_grp, solve, solve_transpose, inv, top_right_block_inverse"])

p("C19", "Structured matrices over polynomials act as their dense form",
  "For every structured matrix class with polynomial entries (circulant, triangular Toeplitz, Sylvester, Toeplitz-like), the dense form is the matrix its defining data describe, full and truncated left and right products agree exactly with it, and the truncated Sylvester inverse and series solutions are exact whenever the constant term is invertible.",
  ["inputs", "configurations"], "all sizes, entry degrees, truncation orders (zero, one, beyond the degree), all moduli",
  "a fixed list of sizes with random data per class, three of them skipped as too slow",
  ["ntl-extras/structured_lzz_pX/structured_lzz_pX.h", "ntl-extras/structured_lzz_pX/src/circulant_row_lzz_pX.cpp", "ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp", "ntl-extras/structured_lzz_pX/src/structured_lzz_pX.cpp", "ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp", "ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp"],
  [("Kronecker-substituted products", "ntl-extras/structured_lzz_pX/src/"), ("Newton iteration on generators", "ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp")],
  observe=["mul_right, mul_left, *_trunc, to_dense, inv_trunc, phi_plus_generators"])

p("C20", "Bivariate polynomial arithmetic and resultants are exact",
  "Addition, subtraction, multiplication by every algorithm, Kronecker substitution and its inverse, shifts, truncations, evaluation, degrees and coefficient access of bivariate polynomials agree with their definitions and keep the representation normalized. Each resultant routine, over any prime field it can choose evaluation points in or not, either reports failure or returns the true resultant with respect to Y (exactly, or up to sign or constant where that is all it promises); it never raises an error.",
  ["inputs", "configurations"], "all pairs of bivariate polynomials (zero, constant in one variable, common factors, leading coefficients vanishing at points), all shift/truncation amounts, prime fields",
  "the resultant test is skipped as too slow; the arithmetic tests use dense random operands of equal shape",
  ["ntl-extras/lzz_pXY/src/lzz_pXY.cpp", "ntl-extras/lzz_pXY/lzz_pXY.h"],
  [("Kronecker substitution", "ntl-extras/lzz_pXY/src/lzz_pXY.cpp"), ("geometric evaluation/interpolation, structured lifting", "ntl-extras/lzz_pXY/src/lzz_pXY.cpp")],
  observe=["zz_pXY members, add, sub, mul*, to/from_kronecker, shift_*, trunc_*, evaluate, resultant*"])

p("C21", "Linear-recurrence annihilators cancel the sequence",
  "For every finite sequence over k[x]/x^d (or over vectors of such elements) satisfying a monic recurrence of order at most half its length, and for the Kurakin-type routines for every finite sequence whose least annihilator with the leading coefficient in question has degree less than the length, each generator returned by the annihilator routines cancels the sequence modulo x^d. The Kurakin-type routines return, for each t < d, an annihilator with leading coefficient x^t, of least degree for kurakin and for scalar sequences; the approximant-based routines generate all annihilators of degree up to half the length; minpoly_nondegenerate returns the monic annihilator when the Hankel matrix is invertible modulo x. The helpers (products, truncated products, sums, zero tests) agree with their definitions and the cancellation check accepts exactly the annihilators.",
  ["inputs"], "all sequences (zero, short, with leading zeros, low-rank, from a matrix), precisions d and vector lengths",
  "eleven recorded input files; one of them fails at the pinned commit",
  ["ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp", "ntl-extras/lzz_pX_seq/lzz_pX_seq.h"],
  [("Kurakin's algorithm with discrepancy bookkeeping", "ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp"), ("approximant-basis formulation", "ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp")],
  observe=["kurakin, modified_kurakin, fill_in, berlekamp_massey_pmbasis*, check_cancel, minpoly_nondegenerate, mul, mulTrunc, add"])

p("C22", "Basis verifiers accept exactly the correct bases",
  "The approximant-, interpolant- and kernel-basis verifiers accept every correct basis in the required form and reject every matrix that is not one: wrong dimensions, a row outside the module, rows generating a proper submodule, or a weaker form than requested (generation is not part of the kernel verifier's documented verdict, which decides dimensions, form and K F = 0). The verdict never depends on which routine produced the candidate.",
  ["inputs"], "all correct bases and all small corruptions of them (perturbed coefficient, scaled row, permuted rows, multiplied by the variable or another factor, wrong order, shift or form)",
  "the verifiers are the oracle of the tests and are only ever shown correct bases",
  [M+"src/mat_lzz_pX_approximant.cpp", M+"src/mat_lzz_pX_interpolant.cpp", M+"src/mat_lzz_pX_kernel.cpp"],
  [("determinant / rank certificate of generation", M+"src/mat_lzz_pX_approximant.cpp")],
  observe=["is_approximant_basis, is_interpolant_basis*, is_kernel_basis"])

p("C23", "No memory errors or undefined behaviour on valid input",
  "On every input that satisfies the documented preconditions, no routine of the library reads or writes outside its objects, uses freed or uninitialised storage, indexes a vector or matrix out of its bounds, overflows signed arithmetic, performs other undefined operations, leaks memory or aborts. This holds for degenerate shapes and across long sequences of calls.",
  ["inputs", "histories", "configurations"], "all public routines, all admissible inputs including empty, zero and minimal ones, all sequences of calls",
  "the tests run the optimised build without bounds checks, where an out-of-bounds access inside over-allocated vectors goes unnoticed",
  ["ntl-extras"], [("manual index arithmetic over raw coefficient arrays", "ntl-extras/*/src"), ("NTL vectors with SetLength/normalize discipline", "ntl-extras/*/src")],
  observe=["address/undefined-behaviour sanitizer reports, checked vector indexing, leak reports, aborts"])

p("C24", "Results are reproducible, argument-pure and modulus-safe",
  "A routine never modifies an argument documented as input only, leaves the current modulus as it found it, and returns the same mathematical answer whatever moduli were installed, whatever objects were created and whatever the output objects contained before the call. Objects built under one modulus keep working after other moduli were used in between, once their modulus is restored.",
  ["histories", "inputs", "configurations"], "all interleavings of modulus switches, reused output objects holding stale data, and calls to different parts of the library",
  "every test starts from fresh objects under one modulus",
  ["ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp", M+"src/mat_lzz_pX_lmultiplier.cpp", "ntl-extras/lzz_pX_CRT/src", M+"src"],
  [("modulus push/restore around 3-primes arithmetic", M+"src/mat_lzz_pX_multiply_3_primes.cpp"), ("SetDims/clear of output objects", M+"src")],
  observe=["modulus and inputs before/after each call; outputs with pre-filled versus fresh result objects"])

p("C25", "Independent threads can use the library concurrently",
  "Threads that each install their own modulus and work on their own objects get, under every interleaving, the same results as when run alone, with no data races between library calls. Read-only sharing, between threads with the same modulus, of polynomial matrices and of evaluation, remaindering and structured-matrix objects used through their const operations is equally safe.",
  ["schedules", "histories"], "all interleavings of calls from different threads, same or different moduli, including first-use initialisation",
  "no test starts a thread",
  ["ntl-extras"], [("no mutable static state; thread-local modulus of the underlying library", "ntl-extras/*/src")],
  observe=["thread-sanitizer reports, per-thread results against a sequential run"])

p("C26", "Exported text denotes exactly the exported object",
  "The Magma and Sage output routines print, for every vector, polynomial and matrix they accept, text that denotes exactly that object in the target syntax: parsing the text back gives the same dimensions, coefficients and variable names. This includes zero and empty objects and all overloads.",
  ["inputs"], "all objects (empty, zero, negative and multi-precision integers, single entries) and all overloads, names and variables",
  "the two output tests print a few objects and check nothing",
  ["ntl-extras/magma_output/src/magma_output.cpp", "ntl-extras/sage_output/src/sage_output.cpp"],
  [("separator and coefficient printing", "ntl-extras/magma_output/src/magma_output.cpp")],
  observe=["standard output of magma_*/sage_* calls"])

p("C27", "Invalid arguments are reported, not computed with",
  "Calls whose documentation promises an error (incompatible dimensions, a shift or order list of wrong length, a truncated inverse of a non-square matrix or of one with singular constant term, negative truncation or shift amounts where rejected, unknown matrix forms) raise the library's error instead of returning a result, for every way of violating the requirement. Calls that satisfy the requirement never raise it.",
  ["inputs"], "all ways to violate each documented requirement, and all boundary-valid arguments next to them",
  "no test calls a routine with invalid arguments",
  [M+"src/mat_lzz_pX_arith.cpp", M+"src/mat_lzz_pX_forms.cpp", M+"src/mat_lzz_pX_inv_trunc.cpp", M+"src/mat_lzz_pX_utils.cpp", "ntl-extras/structured_lzz_p/src"],
  [("explicit dimension checks raising LogicError", "ntl-extras/*/src")],
  observe=["error callback or C++ exception raised by the call, versus normal return"])

p("C28", "FLINT-based routines compute the documented results",
  "Every routine of the FLINT-based part of the library returns exactly what its documentation defines, for all inputs and moduli within the documented ranges.",
  ["inputs", "configurations"], "all inputs of the FLINT-based part", "nothing under flint-extras is compiled or tested here",
  ["flint-extras/src"], [("nmod_vec/nmod_poly/nmod_poly_mat extensions", "flint-extras/src")])

NA = {"C28": "flint-extras requires FLINT >= 3.4.0 (headers and library); FLINT is not installed in the sandbox and cannot be fetched, so the code cannot be compiled, and runtime monitoring has nothing to execute."}
CLAIMED = json.load(open(os.path.join(V, "tools", "claimed.json")))
TECH = {"C24": "purity and repetition monitor around every call: inputs and modulus snapshotted, outputs pre-filled with stale data, calls repeated after other work",
        "C25": "ThreadSanitizer build + concurrent-history monitor against sequential results",
        "C23": "ASan+UBSan+LSan+checked-indexing build and valgrind memcheck, driven by all workloads; their reports decide",
        "C26": "output captured and parsed back by an independent reader (trace monitor)",
        "C27": "call-outcome monitor (library error raised / returned) over invalid and boundary-valid argument pairs"}
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d in P:
        i = d["id"]
        if i in CLAIMED:
            checks.append(dict(property=i, quick_cmd=f"python3 driver/check.py {i} quick", thorough_cmd=f"python3 driver/check.py {i} thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH.get(i, "runtime monitors (reference-model oracles) on real calls, under ASan/UBSan/range-check and optimised builds"),
                level="exploration", level_note="Held on the executions reported in the evidence file (seeded, adversarially shaped workloads over shapes, degrees, moduli, algorithms, call histories). Trusts NTL/GMP, the compiler and the reference oracle in harness/. Nothing is claimed for inputs not executed."))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3 driver/check.py setup", checks=checks, not_applicable=na,
             notes="See DESIGN.md. No hooks are needed in /repo: monitors observe the public API and sanitizer runtimes.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
