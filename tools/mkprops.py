#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text is reviewable).
import json
P=[]
M='ntl-extras/mat_lzz_pX_extra/'
def prop(id,title,stmt,over,otext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

prop('C01','Polynomial matrix products are exact, whichever algorithm computes them',
 'For every pair of polynomial matrices (or matrix and vector, or matrix and constant matrix/scalar) of compatible dimensions over Z/pZ, the product returned by the general entry point, by every specialised multiplication algorithm inside its documented degree/characteristic requirements, and by a precomputed left-multiplier object used any number of times, is exactly the mathematical product with normalised coefficients. The truncated product is exactly that product modulo the given power of x.',
 ['inputs','configurations','histories'],'all moduli (FFT primes, small, large, non-prime with the non-prime flag), dimensions (rectangular, 1xn, empty inner sizes), degree profiles including zero and sparse entries, every algorithm/threshold branch, every sequence of right operands given to one multiplier',
 'test_multiply and test_lmultiplier are too slow to be run by the suite and compare algorithms on a few uniformly random square-ish inputs; the threshold dispatch picks different code by prime size, dimension and degree, so most branches are never sampled.',
 [M+'mat_lzz_pX_multiply.h',M+'src/mat_lzz_pX_multiply.cpp',M+'src/mat_lzz_pX_multiply_naive.cpp',M+'src/mat_lzz_pX_multiply_transform.cpp',M+'src/mat_lzz_pX_multiply_evaluate_dense.cpp',M+'src/mat_lzz_pX_multiply_evaluate_FFT.cpp',M+'src/mat_lzz_pX_multiply_evaluate_geometric.cpp',M+'src/mat_lzz_pX_multiply_3_primes.cpp',M+'src/mat_lzz_pX_lmultiplier.cpp',M+'src/mat_lzz_pX_arith.cpp','ntl-extras/lzz_pX_CRT/src/lzz_pX_Transform.cpp'],
 [('threshold dispatch between Waksman/naive, transforms, dense evaluation, FFT, geometric and 3-primes',M+'src/mat_lzz_pX_multiply.cpp'),('precomputed evaluations of the left operand',M+'src/mat_lzz_pX_lmultiplier.cpp')],
 ['return of each multiply*/mul/mul_trunc call','return of each lmultiplier->multiply call'])

prop('C02','Middle products are exact slices of the product',
 'For all polynomials or polynomial matrices a and c and all bounds dA, dB >= 0 with deg(a) <= dA and deg(c) <= dA+dB, every middle-product routine returns exactly the coefficients dA..dA+dB of a*c. The result does not depend on the algorithm, on the prime class, nor on how much smaller the actual degrees are than the bounds.',
 ['inputs','configurations'],'all primes, all dA/dB (balanced, very unbalanced, zero), all actual degrees below the bounds, all matrix shapes and named algorithms',
 'test_middle_product is skipped by the suite (too slow) and the univariate test samples a handful of degree pairs with random dense inputs; delayed reductions, Karatsuba splits and FFT wrap-around have corner cases at particular dA/dB/prime combinations.',
 ['ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp',M+'src/mat_lzz_pX_middle_product.cpp',M+'src/mat_lzz_pX_middle_product_evaluate_FFT.cpp',M+'src/mat_lzz_pX_middle_product_evaluate_dense.cpp',M+'src/mat_lzz_pX_t_multiply_evaluate.cpp'],
 [('transposed Karatsuba / FFT / dense evaluation, chosen by thresholds','ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp')],
 ['return of every middle_product* call'])

prop('C03','Matrix, vector and polynomial elementary operations follow their definitions',
 'Addition, subtraction, negation, scalar and polynomial scaling, add-with-shift, left/right shifts (whole, row, column), truncations (whole, row, column), reversals (whole, row-wise, column-wise), transposition, coefficient access, evaluation at a point, clearing of windows, identity/zero/constant predicates, degree, conversions between the polynomial-matrix and matrix-polynomial representations and joins/collapses of columns return exactly what their mathematical definition says. All outputs are normalised and keep the documented dimensions, including when the output argument is one of the inputs where documented.',
 ['inputs'],'all matrices/vectors including zero entries, cancelling leading terms, empty dimensions, shift/trunc amounts beyond the degree, aliased outputs',
 'the suite barely tests utilities (test_utils crashes at the pinned commit and is excluded; test_addshift checks nothing); normalisation after cancellation needs special inputs.',
 [M+'src/mat_lzz_pX_utils.cpp',M+'src/mat_lzz_pX_arith.cpp',M+'src/mat_lzz_pX_linearization.cpp',M+'mat_lzz_pX_utils.h',M+'mat_lzz_pX_arith.h','ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp','ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp'],
 [('entry-wise loops with normalisation',M+'src/mat_lzz_pX_utils.cpp')],['return of each utility call'])

prop('C04','Shifted degrees, pivots, leading matrices and form predicates match definitions',
 'For every polynomial matrix and every shift, the reported row/column (shifted) degrees, degree matrices, pivot indices and pivot degrees, and leading matrices are those of the definitions (pivot: rightmost entry reaching the shifted row degree; symmetric for columns). Every predicate is_{row,col}_{reduced,weak_popov,ordered_weak_popov,popov} and the "strongest form" query answer true exactly when the definition holds.',
 ['inputs'],'all matrices (with zero rows/columns, rectangular, ties between entries), all shifts (negative, unbalanced), row and column orientation',
 'test_deg checks a few fixed matrices; ties, zero rows and negative shifts are the interesting cases and are not sampled.',
 [M+'mat_lzz_pX_forms.h',M+'src/mat_lzz_pX_forms.cpp'],
 [('degree/pivot/leading-matrix computations and predicates',M+'src/mat_lzz_pX_forms.cpp')],['return of each forms query'])

prop('C05','Approximant bases are complete, minimal and in the announced form',
 'For every input matrix F, order (uniform or per-column) and shift s, every approximant-basis routine returns a square matrix whose rows generate all vectors p with p*F = 0 modulo the order, which is s-minimal and in the documented form (ordered weak Popov, or Popov for the Popov variants), together with the correct output shift (the s-row degrees). Routines documented for generic input do so whenever their genericity requirement is met.',
 ['inputs','configurations'],'all F (zero, rank-deficient, high valuation, sparse), orders, shifts (uniform, increasing, decreasing, strongly unbalanced, negative), primes from 2 upward, all iterative/recursive algorithm variants and thresholds',
 'the approximant tests (test_app_*) take minutes and are skipped by the suite; remaining ones only cover generic random inputs. Minimality and completeness depend on rank profiles which random dense inputs over large primes never exhibit.',
 [M+'mat_lzz_pX_approximant.h',M+'src/mat_lzz_pX_approximant.cpp',M+'src/mat_lzz_pX_pmbasis.cpp',M+'src/mat_lzz_pX_pmbasis_generic.cpp'],
 [('iterative mbasis step with sorted-shift kernel of constant residual',M+'src/mat_lzz_pX_pmbasis.cpp'),('divide and conquer pmbasis',M+'src/mat_lzz_pX_pmbasis.cpp')],
 ['return of every *mbasis*/appbas*/matrix_pade* call'],
 [('appbas','current basis','mbasis*'),('shift','current shifted row degrees','mbasis*')])

prop('C06','Interpolant bases are complete, minimal and in the announced form',
 'For every matrix F (given by coefficients or by its evaluations), every list of pairwise distinct points and every shift s, every interpolant-basis routine returns a square matrix whose rows generate all vectors p such that p*F vanishes at all the points, which is s-minimal and in the documented form, together with the correct output shift. Geometric-point variants use the geometric points they report.',
 ['inputs','configurations'],'all F, point sets (general, geometric, containing 0), shifts, numbers of points around the thresholds, primes',
 'test_int_* are skipped by the suite (too slow); only generic inputs are tried there.',
 [M+'mat_lzz_pX_interpolant.h',M+'src/mat_lzz_pX_interpolant.cpp'],
 [('iteration on points with residual recomputation/update; divide and conquer',M+'src/mat_lzz_pX_interpolant.cpp')],['return of every interpolant-basis call'])

prop('C07','Kernel bases are complete, minimal and in the announced form',
 'For every polynomial matrix F and every shift s within the documented requirements, the kernel-basis routines return a matrix of full row rank m - rank(F) whose rows are exactly a basis of the left kernel of F over K[x] (not just over fractions), s-minimal and in the documented form, with the announced pivots/shift.',
 ['inputs','configurations'],'all F (zero, zero rows/columns, rank-deficient, unbalanced column degrees, tall/square/wide), shifts, primes, direct and divide-and-conquer variants',
 'test_kernel is skipped by the suite and test_solve_kernel fails at the pinned commit; no suite test covers rank-deficient inputs.',
 [M+'mat_lzz_pX_kernel.h',M+'src/mat_lzz_pX_kernel.cpp'],
 [('reduction to approximant/interpolant bases; Zhou-Labahn-Storjohann recursion',M+'src/mat_lzz_pX_kernel.cpp')],['return of every kernel_basis* call'])

prop('C08','Power-series inverses and series solutions are exact to the requested precision',
 'For every square polynomial matrix with invertible constant term, every precision and every algorithm (plain, Newton with FFT, middle product or geometric points, whatever the switching threshold), the truncated inverse equals the exact inverse modulo x^d; likewise every series-solving routine returns the unique u with A*u = b modulo x^prec and univariate series division is exact. High-order lifting returns the documented slice of the inverse expansion.',
 ['inputs','configurations'],'all matrices with invertible constant term, all right-hand sides (degree above/below precision), precisions at and around powers of two and thresholds, thresholds given by the caller, primes',
 'the suite runs test_inv_trunc and test_linsolve_series on random dense square inputs with a few precisions only; doubling schedules have boundary cases at particular precisions.',
 [M+'mat_lzz_pX_inverse.h',M+'src/mat_lzz_pX_inv_trunc.cpp',M+'mat_lzz_pX_linsolve.h',M+'src/mat_lzz_pX_linsolve.cpp','ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp'],
 [('Newton iteration / high-order lifting',M+'src/mat_lzz_pX_inv_trunc.cpp')],['return of inv_trunc*/solve_series*/InvTruncMul/high_order_lift_inverse_odd'])

prop('C09','Linear systems over K(x) are solved with a correct denominator',
 'For every nonsingular polynomial matrix A and right-hand side b, the rational linear solvers return a vector u and a nonzero denominator den with A*u = den*b, and den is of minimal degree where documented (u/den in lowest terms). A reported failure never accompanies a solvable system.',
 ['inputs'],'all nonsingular A, all b (zero, in the image of a factor), dimensions, degrees, primes',
 'test_linsolve is skipped by the suite and test_solve_kernel fails at the pinned commit.',
 [M+'mat_lzz_pX_linsolve.h',M+'src/mat_lzz_pX_linsolve.cpp'],[('series solution + rational reconstruction / kernel',M+'src/mat_lzz_pX_linsolve.cpp')],['return of linsolve_via_series / linsolve_via_kernel'])

prop('C10','Determinants are exact',
 'For every square polynomial matrix, each determinant routine that returns (or reports success) returns the exact determinant, or the determinant up to a nonzero constant where so documented; singular matrices give zero with the deterministic routines. The verification routine accepts a candidate exactly when it is the determinant (up to the randomisation error when randomised).',
 ['inputs','configurations'],'all square matrices (singular, unimodular, unbalanced degrees, 0x0/1x1), primes, algorithms (minors, evaluation at general/geometric/FFT points, triangularisation, linsolve)',
 'test_determinant runs one random dense 8x8 size; singular matrices and permuted/unbalanced degrees are not sampled.',
 [M+'mat_lzz_pX_determinant.h',M+'src/mat_lzz_pX_determinant.cpp'],[('evaluation/interpolation, expansion by minors, block triangularisation',M+'src/mat_lzz_pX_determinant.cpp')],['return of determinant*/verify_determinant'])

prop('C11','Matrix division with remainder and row reduction are correct',
 'For every A and every square row-reduced divisor B with the same number of rows, division with remainder returns the unique Q,R with A = B*Q + R and the degree of each row of R less than that of the corresponding row of B. Row reduction reports failure exactly when the constant term of its input is singular, and otherwise returns a row-reduced matrix generating the same row space (same module) as its input.',
 ['inputs'],'all A, all reduced divisors, degree gaps (including deg A < deg B), zero matrices, primes',
 'test_division uses random dense operands; test_reduction is skipped.',
 [M+'mat_lzz_pX_extra.h',M+'src/mat_lzz_pX_division.cpp',M+'src/mat_lzz_pX_reduction.cpp'],[('reversal and truncated inverse of the divisor',M+'src/mat_lzz_pX_division.cpp')],['return of quo_rem / reduced_form_gjv'])

prop('C12','Partial linearisation and column expansion are faithful',
 'Column linearisation and column partial linearisation rewrite a matrix so that recombining the produced columns with the announced powers of x gives back exactly the input (on the part they are documented to keep), with all produced columns within the announced degree bounds. Products and middle products computed through partial linearisation equal the direct ones.',
 ['inputs'],'all matrices, all parameter/target degree vectors (below, equal to, above actual degrees, zero)',
 'linearisation is exercised by the suite only indirectly; off-by-one splits need specific degree/parameter residues.',
 [M+'mat_lzz_pX_linearization.h',M+'src/mat_lzz_pX_linearization.cpp'],[('quotient/remainder splitting of column degrees',M+'src/mat_lzz_pX_linearization.cpp')],['return of column_*linearization*/right_parlin_*/collapse_*'])

prop('C13','Multipoint evaluation, interpolation and their transposes are exact',
 'For general, geometric and FFT point sets of every size, evaluation returns the values at exactly the reported points (for polynomials below the announced degree bound), interpolation is its exact inverse, and the transposed maps are the exact transposes (with the requested output size); vector, matrix, "long" and Vandermonde-vector variants agree. These hold for repeated use of one object in any order and for both settings of the FFT/prepared-degree flags.',
 ['inputs','histories','configurations'],'all point counts (1, odd, powers of two, around thresholds), degrees (zero polynomial up to bound), prime classes, call sequences on one object including preparing degrees and toggling FFT flags',
 'tests check evaluate/interpolate on dense random polynomials of full degree on a fresh object; short polynomials, reuse of shared workspace and prepared degrees are not sampled.',
 ['ntl-extras/lzz_pX_CRT/lzz_pX_CRT.h','ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint.cpp','ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp','ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp','ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp'],
 [('precomputed trees / chirp vectors / FFT tables','ntl-extras/lzz_pX_CRT/src')],['return of evaluate/interpolate/t_evaluate/t_interpolate and vector/matrix variants'],
 [('object','points and precomputed tables, workspace, flags','zz_pX_Multipoint_*')])

prop('C14','Chinese remaindering is exact and inverse to multi-modular reduction',
 'For every family of pairwise coprime squarefree moduli, multi-remainder returns the exact remainders of any polynomial, recombination returns the unique polynomial below the total degree with the given residues, and the two are inverse. The subproduct tree root is the product of the moduli.',
 ['inputs'],'all numbers of moduli (1, odd, powers of two), unequal degrees, residues of too large degree, primes including small characteristic',
 'test_CRT uses random moduli of one shape.',
 ['ntl-extras/lzz_pX_CRT/src/lzz_pX_CRT.cpp'],[('subproduct tree and cofactors','ntl-extras/lzz_pX_CRT/src/lzz_pX_CRT.cpp')],['return of multimod/combine/master/moduli/build_subproduct_tree'])

prop('C15','Structured matrices over the field act exactly as their dense form',
 'Every structured matrix (Hankel, Toeplitz, triangular Toeplitz, circulant, Toeplitz-like, Hankel-like, Cauchy, Cauchy-like, mosaic, Sylvester) built from its defining data is the matrix of the definition: its dense conversion is that matrix, and products from the left and right with vectors and matrices, block/row/column accessors and displacement-operator/generator routines agree with it.',
 ['inputs','configurations'],'all dimensions (1x1, tall, wide, around FFT/Karatsuba thresholds), defining data with zeros, prime classes, numbers of generators',
 'tests compare with the dense form on random dense data and few shapes; several to_dense tests check nothing; test_toeplitz_like_minus_mul_right is skipped.',
 ['ntl-extras/structured_lzz_p/structured_lzz_p.h','ntl-extras/structured_lzz_p/src'],[('FFT/middle-product based products, displacement representation','ntl-extras/structured_lzz_p/src')],['return of to_dense/mul_left/mul_right/phi/generators/accessors'])

prop('C16','Structured solvers and inverters give correct answers or report failure',
 'Structured linear solving and inversion (Cauchy-like, mosaic Hankel/Toeplitz, Sylvester) on every input: when success is reported the returned vector solves the system / the returned structured matrix is the inverse (or the inverse of the leading principal minor of the documented size); the reported rank/failure status is correct for invertible and singular inputs as documented.',
 ['inputs','configurations'],'all structured matrices including singular ones and ones with singular leading minors, right-hand sides in/out of the image, caller-given thresholds, primes',
 'solve/invert tests either are skipped, fail at the pinned commit (mosaic), or sample generic invertible matrices.',
 ['ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp','ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp','ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp','ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp'],
 [('GKO-style elimination / block recursion on generators','ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp')],['return of solve*/inv*/invert*'])

prop('C17','Structured matrices over K[x] act exactly as their dense form',
 'Every structured polynomial matrix (triangular Toeplitz, circulant, Toeplitz-like, Sylvester over K[x]) converts to the dense matrix of its definition, and its left/right products with vectors and matrices, full or truncated at any precision, before or after preparing a degree, are exactly the (truncated) dense products; truncated Sylvester inverses are exact modulo the requested precision.',
 ['inputs','histories'],'all dimensions and degrees, truncation orders below/at/above the degrees, prepared degrees in any order, primes',
 'the suite skips several of these tests (too slow) and samples random dense data.',
 ['ntl-extras/structured_lzz_pX/structured_lzz_pX.h','ntl-extras/structured_lzz_pX/src'],[('bivariate Kronecker products with cached FFTs','ntl-extras/structured_lzz_pX/src')],['return of to_dense/mul_*/mul_*_trunc/newton_inv_trunc/high_precision_inv_trunc'])

prop('C18','Bivariate polynomial arithmetic and resultants are exact',
 'Bivariate polynomial addition, subtraction, scaling, both multiplication algorithms, Kronecker substitution round trips, shifts, truncations, degrees and evaluation are exact with normalised results for all operands. The evaluation/interpolation resultant, whenever it reports success (always, over large fields), is exactly the resultant in Y for all inputs including zero, constant and non-coprime polynomials; the block (Villard) algorithms return it up to a constant factor for generic operands of any y-degrees, and exactly for operands constant in x or y.',
 ['inputs'],'all bivariate polynomials (zero, constant in one variable, cancelling leading terms, gcd non trivial), primes',
 'tests multiply dense random polynomials; test_resultant is skipped.',
 ['ntl-extras/lzz_pXY/lzz_pXY.h','ntl-extras/lzz_pXY/src/lzz_pXY.cpp'],[('Kronecker substitution; evaluation/interpolation; Villard-style block algorithm','ntl-extras/lzz_pXY/src/lzz_pXY.cpp')],['return of each zz_pXY operation'])

prop('C19','Annihilating ideals of sequences over power series are correct',
 'For every finite sequence (or vector of sequences) over K[x]/x^d: Kurakin\'s algorithm returns, for each t < d, a polynomial with leading term x^t y^j that cancels the sequence, with j the least possible (and the degree bound length-1 when nothing cancels); the modified algorithm returns a subset of such candidates that still reaches the least degree for every t, completed by fill_in; the approximant-based Berlekamp-Massey routines return a minimal basis of the relations of the associated block Hankel matrix modulo x^d; minpoly_nondegenerate returns the monic recurrence of a non-degenerate sequence; products of a sequence by a polynomial are exact and check_cancel accepts exactly the cancelling families.',
 ['inputs'],'all sequences (zero, nilpotent, degenerate, generic), precisions d, lengths, small and large primes',
 'test_seq runs about twenty fixed input files, one of which crashes at the pinned commit.',
 ['ntl-extras/lzz_pX_seq/lzz_pX_seq.h','ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp'],[('Kurakin iteration; pmbasis-based Berlekamp-Massey','ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp')],['return of kurakin/modified_kurakin/berlekamp_massey_*/check_cancel'])

prop('C20','Matrix sequences and matrix-fraction reconstruction are correct',
 'Power projections and matrix sequences built from modular powers are exactly the documented coefficients, and matrix reconstruction from sufficiently many terms (power series or values at points) returns a left denominator basis that annihilates the sequence and is minimal.',
 ['inputs'],'all moduli g, polynomials a, block sizes, sequence lengths, points, primes',
 'test_matrix_recon checks nothing; test_charpolymod etc. run one size.',
 [M+'mat_lzz_pX_sequence.h',M+'src/mat_lzz_pX_sequence.cpp'],[('baby-step/giant-step powers; approximant/interpolant reconstruction',M+'src/mat_lzz_pX_sequence.cpp')],['return of gen_pows/gen_sequence/matrix_recon_*'])

prop('C21','Certificate checkers accept exactly the valid answers',
 'The library verification routines for approximant bases, interpolant bases and kernel bases answer true on every valid basis in the requested form, and the deterministic ones answer false on every candidate that is not one (wrong dimensions, rows outside the module, non-generating, non-minimal, wrong form); for kernel bases the checker decides everything but generation, which it is documented not to test.',
 ['inputs'],'all candidate matrices obtained from valid ones by any mutation (row multiplied by x or by a polynomial, row combination breaking the form, entry change, dropped generator), all problem inputs, shifts and forms',
 'the suite uses checkers as oracles and never tests that they reject.',
 [M+'src/mat_lzz_pX_approximant.cpp',M+'src/mat_lzz_pX_interpolant.cpp',M+'src/mat_lzz_pX_kernel.cpp'],[('degree/form test, residual test, generation test',M+'src/mat_lzz_pX_approximant.cpp')],['return of is_approximant_basis/is_interpolant_basis/is_kernel_basis'])

prop('C22','Calls leave inputs, modulus and results independent of history',
 'A library call never changes the current modulus, never changes its input-only arguments, gives the same mathematical result when an output argument is an input argument wherever aliasing is documented or the signature is an in-place operator, and gives a result that does not depend on the previous contents of output arguments or on the calls made before it (including calls under other moduli and reuse of precomputed objects).',
 ['histories','inputs'],'all sequences of operations over a pool of matrices/polynomials/objects with modulus switches between calls, dirty output arguments, all alias patterns',
 'tests call each function once on fresh outputs under one modulus.',
 [M+'src/mat_lzz_pX_multiply_3_primes.cpp',M+'src/mat_lzz_pX_lmultiplier.cpp',M+'src/mat_lzz_pX_arith.cpp',M+'src/mat_lzz_pX_utils.cpp',M+'src/mat_lzz_pX_multiply.cpp'],[('zz_pPush / save-restore of the modulus around multi-modular code',M+'src/mat_lzz_pX_multiply_3_primes.cpp'),('alias tests with temporaries',M+'src/mat_lzz_pX_utils.cpp')],['every public call of a session: result, input registers, current modulus'],
 [('zz_p::modulus()','current modulus','NTL'),('registers','live matrices/polynomials/objects','caller')])

prop('C23','Scalar, univariate and field helpers are exact',
 'Taylor shift (any algorithm, any characteristic), entry-wise inversion of vectors, multiplicative order, search for elements of given order, prime-class queries and the special constant matrices return exactly what their definition says; a returned element of given order really has the requested (strong) order property, and zero is returned only as the documented failure value.',
 ['inputs'],'all polynomials and shift values, degrees below/above the characteristic, all vectors of units, all orders, prime and composite moduli',
 'tests use large primes where small-characteristic branches are unreachable.',
 ['ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp','ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp','ntl-extras/vec_lzz_p_extra/src/vec_lzz_p_extra.cpp','ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp'],[('divide and conquer shift / factorial-based shift','ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp')],['return of shift/inv/order/element_of_order/Z_lzz_p/J_lzz_p/diagonal_matrix'])

prop('C24','Magma and Sage text output denotes exactly the value written',
 'For every integer, field, polynomial, vector or matrix value, the text written by the Magma and Sage output and assignment routines, read back with the semantics of that language, denotes exactly the value (including zero, empty vectors, constant and negative cases, every coefficient and exponent; matrices with at least one row and column) under the given variable and assigned to the given name.',
 ['inputs'],'all values of each supported type, variable names and target names',
 'the output tests print a few values and check nothing.',
 ['ntl-extras/magma_output/src/magma_output.cpp','ntl-extras/sage_output/src/sage_output.cpp'],[('recursive printing','ntl-extras/magma_output/src/magma_output.cpp')],['bytes written to stdout by each *_output/*_assign call'])

import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p,s)
except ImportError: pass
print(len(P))
