#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
I="include/tlapack/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=[f if f.startswith(("src","include/")) else I+f for f in files],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=I+b if not b.startswith(("src","include/")) else b) for a,b in mech],
      observe_at=observe or ["return of the public call"],hook_needed=None)))
TB="The BLAS test-suite submodule is empty in this tree, so BLAS routines are only reached through LAPACK tests, with one or two flag combinations and contiguous data."
p("C01","BLAS level 2 and 3 routines compute exactly their documented formula",
  "For every combination of side, triangle, transposition, diagonal and scalar arguments, every problem size including zero, every storage layout, stride and scalar type, each matrix-vector and matrix-matrix routine (general, symmetric, Hermitian and triangular product, solve, rank-1, rank-2, rank-k and rank-2k update) leaves in its output exactly the value of its documented formula. All memory outside its output operand keeps its value, including the padding between columns, and the input operands are unchanged. Conjugation is applied exactly where the formula says so.",
  ["inputs","programs","configurations"],"all flags x sizes x layouts x scalar values, and all sequences of such calls on overlapping parts of one memory",
  TB,["blas/gemm.hpp","blas/hemm.hpp","blas/symm.hpp","blas/herk.hpp","blas/her2k.hpp","blas/syrk.hpp","blas/syr2k.hpp","blas/trmm.hpp","blas/trsm.hpp","blas/gemv.hpp","blas/hemv.hpp","blas/symv.hpp","blas/ger.hpp","blas/geru.hpp","blas/her.hpp","blas/her2.hpp","blas/syr.hpp","blas/syr2.hpp","blas/trmv.hpp","blas/trsv.hpp"],
  [("loop nests selected by the flags","blas/gemm.hpp"),("real part forced on the diagonal of Hermitian updates","blas/herk.hpp")],
  [("mem","contents of every buffer, padding included","caller memory")])
p("C02","BLAS level 1 routines and plane rotations compute their documented formula",
  "For all vector lengths including zero, all positive strides and both traversal directions, copy, swap, scale, axpy, dot products, sums of absolute values, Euclidean norm, index of the largest entry, and plane and modified rotations give exactly the documented result. The index search returns the first position holding the largest entry, and a generated rotation maps the given pair to (r, 0) with a unitary matrix. Elements between the strided entries are never touched.",
  ["inputs","programs","configurations"],"all lengths, strides, directions, values and scalar types, and sequences of calls",
  TB,["blas/asum.hpp","blas/axpy.hpp","blas/copy.hpp","blas/dot.hpp","blas/dotu.hpp","blas/iamax.hpp","blas/nrm2.hpp","blas/rot.hpp","blas/rotg.hpp","blas/rotm.hpp","blas/rotmg.hpp","blas/lartg.hpp","blas/scal.hpp","blas/swap.hpp","LegacyVector.hpp"],
  [("first-maximum search","blas/iamax.hpp"),("strided access","LegacyVector.hpp")])
p("C03","Routines neither read nor write the triangle or diagonal they do not reference",
  "Whenever an operand is described as symmetric, Hermitian, triangular, unit triangular or only partially referenced, the result does not depend on the entries outside the referenced part, and those entries are bit-for-bit unchanged on return. Imaginary parts of the diagonal of a Hermitian operand do not influence the result. This holds for BLAS and LAPACK routines alike, for both triangles and all layouts.",
  ["inputs","configurations"],"all contents (including NaN) of the unreferenced part, both triangles, both diagonal kinds, all sizes and layouts",
  "Tests fill the other triangle with one fixed value at most and mostly compare the referenced part; an arbitrary content of the unreferenced part is a universal quantifier.",
  ["blas/hemm.hpp","blas/herk.hpp","blas/trmm.hpp","blas/trsm.hpp","lapack/potrf2.hpp","lapack/potrf_blocked.hpp","lapack/potrs.hpp","lapack/potri.hpp","lapack/trtri_recursive.hpp","lapack/lauum_recursive.hpp","lapack/hetd2.hpp","lapack/hetrf.hpp","lapack/lacpy.hpp","lapack/laset.hpp","lapack/lansy.hpp","lapack/lanhe.hpp","lapack/lantr.hpp","lapack/larft.hpp","lapack/larfb.hpp"],
  [("loops restricted by uplo","blas/hemm.hpp"),("recursion on referenced blocks","lapack/potrf2.hpp")])
p("C04","Matrix and vector views alias exactly the selected elements",
  "Slices, row and column ranges, rows, columns, diagonals, transposed views and reshapes of matrices, vectors and banded matrices, nested to any depth, designate exactly the elements their definition selects: reading a view reads those elements and writing through it changes those elements and nothing else. This holds for column-major, row-major, strided and reversed storage. A reshape that cannot be expressed is refused with an error and never returns a view with other elements.",
  ["programs","histories"],"all finite compositions of view operations on all shapes, strides and directions, including empty ranges",
  "Unit tests use a handful of fixed slices; compositions and reversed or strided storage are not reached.",
  ["plugins/legacyArray.hpp","LegacyMatrix.hpp","LegacyVector.hpp","LegacyBandedMatrix.hpp","plugins/stdvector.hpp","base/arrayTraits.hpp"],
  [("slice/rows/cols/row/col/diag/transpose_view/reshape overloads","plugins/legacyArray.hpp")],
  [("view","map from index pairs to buffer positions","plugins/legacyArray.hpp")])
p("C05","Workspace queries are sufficient and supplied workspace gives the same result",
  "For every routine that takes a workspace, supplying exactly the amount its query reports lets it finish without failure and without touching memory outside that workspace, for every size, flag and block-size option. The result is the same as that of the variant that allocates its own memory, whatever the initial contents of the workspace. Combining and transposing workspace requirements never yields less than any of the combined requirements needs.",
  ["inputs","configurations","histories"],"all routines with a workspace query x sizes x flags x options, all initial workspace contents, all sequences of requirement combinations",
  "Tests mostly call the allocating interface, or query and run at one block size; garbage in the workspace and one-element shortages are not explored.",
  ["base/workspace.hpp","lapack/larfb.hpp","lapack/gehrd.hpp","lapack/gebrd.hpp","lapack/multishift_qr.hpp","lapack/householder_q_mul.hpp","lapack/unmq.hpp","lapack/getri.hpp","plugins/legacyArray.hpp"],
  [("WorkInfo::minMax, operator+=, transpose","base/workspace.hpp"),("*_worksize functions","lapack/householder_q_mul.hpp"),("reshape of workspace","plugins/legacyArray.hpp")],
  [("WorkInfo","rows, columns and shape kind required","base/workspace.hpp")])
p("C06","Invalid arguments are rejected and valid ones accepted, without side effects",
  "With input checking on, a call whose flags or operand dimensions violate the routine's documented preconditions fails with a domain error before modifying any operand or memory around it; a call with nothing to compute (no reflectors, or a result without elements) may instead return at once, modifying nothing. A call that satisfies them, including every empty-dimension case and operands that are larger than strictly needed where allowed, never reports a domain error.",
  ["inputs","configurations"],"all flag values and all dimension tuples in and around the valid set",
  "Tests check a few hand-picked wrong shapes; acceptance and rejection sets are defined by every dimension tuple.",
  ["base/exceptionHandling.hpp","blas/gemm.hpp","blas/trsm.hpp","lapack/larfb.hpp","lapack/larf.hpp","lapack/potrf.hpp","lapack/getrf.hpp","lapack/unmq.hpp"],
  [("tlapack_check preconditions","base/exceptionHandling.hpp")])
p("C07","Symmetric factorizations (Cholesky, LDL, Bunch-Kaufman) are correct, failure too",
  "For a Hermitian positive definite matrix every Cholesky variant, block size and triangle (dense, banded and tridiagonal) yields the same factor whose product reproduces the matrix, and the solvers, products and inverses built on it satisfy their defining equations. When the matrix is not positive definite this is reported, by an error or by the order of the first leading minor that is not positive as return code, and the symmetric-indefinite factorization with its pivot record reproduces any Hermitian or symmetric matrix. Only the stated triangle or band is overwritten.",
  ["inputs","configurations"],"all matrices, sizes relative to block sizes, triangles, variants and options",
  "Tests use random positive definite matrices; failure codes, indefinite inputs at each position and block boundaries are not covered.",
  ["lapack/potrf.hpp","lapack/potrf2.hpp","lapack/potf2.hpp","lapack/potrf_blocked.hpp","lapack/potrf_blocked_right_looking.hpp","lapack/potrs.hpp","lapack/potri.hpp","lapack/pttrf.hpp","lapack/pbtrf_with_workspace.hpp","lapack/hetrf.hpp","lapack/hetrf_blocked.hpp","lapack/hetf3.hpp"],
  [("info propagation through recursion/blocks","lapack/potrf2.hpp"),("pivot record","lapack/hetf3.hpp")])
p("C08","LU factorization, pivots and matrix inverses are correct",
  "For every rectangular matrix each LU variant returns unit lower and upper factors and a row-interchange record, applied in order, that reproduce the matrix; each pivot is an entry of largest magnitude (for complex data possibly measured by the sum of real and imaginary parts) in its column, so multipliers stay bounded. The return code is zero exactly when no zero pivot occurred and otherwise the position of the first one. Every inverse and factor-product routine (general, triangular, upper-times-lower variants) yields the exact inverse or product.",
  ["inputs","configurations"],"all matrices, shapes, ranks, tie patterns and variants",
  "Tests use random nonsingular matrices; ties, singular and rectangular inputs are rarely or never hit.",
  ["lapack/getrf.hpp","lapack/getrf_recursive.hpp","lapack/getrf_level0.hpp","lapack/getri.hpp","lapack/getri_uili.hpp","lapack/getri_uxli.hpp","lapack/trtri_recursive.hpp","lapack/lu_mult.hpp","lapack/ul_mult.hpp"],
  [("pivot search and swaps","lapack/getrf_recursive.hpp")],
  [("piv","row interchanged with row i at step i","lapack/getrf.hpp")])
p("C09","Householder reflectors, block reflectors and implicit Q are applied exactly",
  "Applying one elementary reflector, a block of reflectors, or the unitary matrix stored as reflectors multiplies the target from the stated side by exactly the product of the individual reflectors in the stated order, conjugate-transposed when asked. It does so for forward and backward order, columnwise and rowwise storage, all sizes, all block sizes and all layouts. The reflector vectors, their scalars and everything outside the target are unchanged, and no storage position implied to be one or zero influences the result.",
  ["inputs","configurations","programs"],"all sides, operations, directions, storage modes, sizes, reflector counts and block sizes",
  "Tests reach these only as part of a full factorization with one direction at a time; order or conjugation slips cancel between generation and application.",
  ["lapack/larf.hpp","lapack/larft.hpp","lapack/larfb.hpp","lapack/unm2r.hpp","lapack/unm2l.hpp","lapack/unml2.hpp","lapack/unmr2.hpp","lapack/unmqr.hpp","lapack/unmlq.hpp","lapack/unmql.hpp","lapack/unmrq.hpp","lapack/unmq.hpp","lapack/unmq_level2.hpp","lapack/householder_q_mul.hpp","lapack/unmhr.hpp"],
  [("T-factor recurrence","lapack/larft.hpp"),("order of application by side/op/direction","lapack/unmq_level2.hpp")])
p("C10","Orthogonal factorizations QR, LQ, QL and RQ reproduce the matrix",
  "Every QR, LQ, QL and RQ routine, blocked, unblocked or recursive, leaves a triangular or trapezoidal factor and reflectors such that the explicitly generated unitary matrix times the triangular factor equals the input to working accuracy, for tall, wide, square and empty shapes and any block size. The explicitly generated matrix equals the product of the stored reflectors, has orthonormal columns or rows, and the unblocked, blocked and recursive generators agree. A generated reflector maps its vector to a real multiple of the first unit vector.",
  ["inputs","configurations"],"all matrices, shapes, number of generated columns and block sizes",
  "The testers of six of these routines are commented out and the rest run few shapes and one block size.",
  ["lapack/geqr2.hpp","lapack/geqrf.hpp","lapack/geqrt3.hpp","lapack/gelq2.hpp","lapack/gelqf.hpp","lapack/gelqt.hpp","lapack/geql2.hpp","lapack/geqlf.hpp","lapack/gerq2.hpp","lapack/gerqf.hpp","lapack/ung2r.hpp","lapack/ung2l.hpp","lapack/ungl2.hpp","lapack/ungr2.hpp","lapack/ungqr.hpp","lapack/unglq.hpp","lapack/ungql.hpp","lapack/ungrq.hpp","lapack/ungq.hpp","lapack/householder_qr.hpp","lapack/gen_householder_q.hpp","lapack/trge_qr2.hpp","lapack/trge_ung2r.hpp","lapack/larfg.hpp"],
  [("panel factorization and trailing update","lapack/geqrf.hpp"),("reflector generation","lapack/larfg.hpp")])
p("C11","Reductions to condensed form are similarity or equivalence transformations",
  "Reduction to Hessenberg, bidiagonal, tridiagonal and Hessenberg-triangular form produces a matrix of exactly the required shape together with unitary transformations that map it back to the input to working accuracy. A requested active range is honoured: rows and columns outside it are only transformed as the similarity requires and the transformation is the identity there. The blocked and unblocked routines agree for every block size and crossover point.",
  ["inputs","configurations"],"all matrices, shapes, active ranges, triangles, block sizes and crossover points",
  "Tests use few shapes and mostly the full range, with one block-size setting.",
  ["lapack/gehd2.hpp","lapack/gehrd.hpp","lapack/lahr2.hpp","lapack/hessenberg.hpp","lapack/unghr.hpp","lapack/gebd2.hpp","lapack/gebrd.hpp","lapack/labrd.hpp","lapack/bidiag.hpp","lapack/ungbr.hpp","lapack/hetd2.hpp","lapack/ungtr.hpp","lapack/gghrd.hpp","lapack/gghd3.hpp","lapack/hessenberg_rq.hpp"],
  [("panel reduction","lapack/lahr2.hpp"),("blocked update","lapack/gebrd.hpp")])
p("C12","The Schur decomposition of a Hessenberg matrix is a unitary similarity",
  "Each eigenvalue iteration (double-shift and multishift with aggressive deflation) returns, for every input that converges, an upper quasi-triangular matrix with standardized diagonal blocks that is unitarily similar to the input through the accumulated transformation, and eigenvalues that are those of the diagonal blocks in order. Not asking for the transformation, or for the triangular form, gives the same eigenvalues, and a partial active range leaves the rest of the spectrum alone. All tuning parameters (shift counts, window sizes, crossover) only affect speed.",
  ["inputs","configurations"],"all Hessenberg inputs (defective, graded, with zero subdiagonals), active ranges, want-flags and tuning parameters",
  "Tests use a few matrix families and default tuning.",
  ["lapack/lahqr.hpp","lapack/lahqr_eig22.hpp","lapack/lahqr_schur22.hpp","lapack/lahqr_shiftcolumn.hpp","lapack/multishift_qr.hpp","lapack/multishift_qr_sweep.hpp","lapack/aggressive_early_deflation.hpp","lapack/move_bulge.hpp","lapack/qr_iteration.hpp","lapack/FrancisOpts.hpp"],
  [("deflation and shift strategy","lapack/multishift_qr.hpp")])
p("C13","The generalized Schur decomposition is a unitary equivalence",
  "Each generalized eigenvalue iteration turns a Hessenberg-triangular pair into a quasi-triangular and triangular pair with unitary left and right transformations reproducing the input pair, and returns eigenvalue ratios that are those of the diagonal blocks in order, infinite ones included. Not asking for transformations or for the triangular form gives the same eigenvalues, and a partial range leaves the rest alone. Tuning parameters only affect speed.",
  ["inputs","configurations"],"all Hessenberg-triangular pairs (singular second matrix included), ranges, want-flags and tuning parameters",
  "Tests use a few families with default tuning.",
  ["lapack/lahqz.hpp","lapack/lahqz_eig22.hpp","lapack/lahqz_schur22.hpp","lapack/lahqz_shiftcolumn.hpp","lapack/multishift_qz.hpp","lapack/multishift_qz_sweep.hpp","lapack/aggressive_early_deflation_generalized.hpp"],
  [("infinite eigenvalue deflation","lapack/lahqz.hpp")])
p("C14","Reordering a (generalized) Schur form permutes diagonal blocks only",
  "Moving or swapping diagonal blocks of a Schur or generalized Schur form keeps a Schur form that is unitarily equivalent to the original through the updated transformations, and the eigenvalues appear in exactly the requested new order: the moved block arrives at the target, the passed blocks keep their relative order. A position pointing inside a block is adjusted to the block and the adjusted position is reported. If a swap is refused a nonzero code is returned, the form stays valid, and the reported position is where the block stopped.",
  ["inputs","histories"],"all block structures (mixtures of 1x1 and 2x2), all source/target positions, all sequences of moves",
  "Tests run a few sizes with random positions; the interplay of block boundaries and repeated moves is combinatorial.",
  ["lapack/schur_move.hpp","lapack/schur_swap.hpp","lapack/generalized_schur_move.hpp","lapack/generalized_schur_swap.hpp","lapack/lasy2.hpp"],
  [("block-position bookkeeping","lapack/schur_move.hpp")],
  [("block order","sequence of diagonal block sizes and eigenvalues","lapack/schur_move.hpp")])
p("C15","Singular value and symmetric eigenvalue decompositions are correct and ordered",
  "The singular value decomposition of any matrix, bidiagonal or 2x2 triangle returns nonnegative singular values in the documented order with orthonormal vectors reproducing the input to working accuracy, and the symmetric tridiagonal and 2x2 eigensolvers return eigenvalues in ascending order (2x2: by magnitude) with orthonormal vectors. Requesting or omitting vectors does not change the values. Vectors passed in to be updated are multiplied by the computed transformations.",
  ["inputs","configurations"],"all matrices and shapes, including zeros on either diagonal, repeated values and wide or tall shapes, and all want-flags",
  "Tests use random inputs of a few sizes; split matrices, zeros on the diagonal and clusters are not reached.",
  ["lapack/gesvd.hpp","lapack/svd_qr.hpp","lapack/svd22.hpp","lapack/singularvalues22.hpp","lapack/steqr.hpp","lapack/laev2.hpp","lapack/lae2.hpp"],
  [("implicit zero-shift / split handling","lapack/svd_qr.hpp")])
p("C16","Exceptional values are found, propagated and ignored as documented",
  "NaN and infinity in referenced input follow documented rules: detection routines report presence exactly, norms and sums propagate NaN and never mask it, the index search prefers the first NaN, then the first infinity, then the first maximum, and a scalar described as a strong zero suppresses any exceptional value it multiplies while an ordinary zero propagates it. An entry in an unreferenced position is never reported. Results do not depend on where in the array the exceptional value sits.",
  ["inputs"],"all positions and kinds of exceptional values, all routines that document them, all uplo kinds",
  "Tests place NaN and infinity at a few positions in vectors.",
  ["base/StrongZero.hpp","blas/iamax.hpp","lapack/hasnan.hpp","lapack/hasinf.hpp","lapack/lange.hpp","lapack/lansy.hpp","lapack/lanhe.hpp","lapack/lantr.hpp","base/utils.hpp","lapack/lapy2.hpp","lapack/lapy3.hpp","blas/gemm.hpp","lapack/lassq.hpp"],
  [("StrongZero arithmetic","base/StrongZero.hpp"),("isnan/isinf","base/utils.hpp")])
p("C17","Norms and copy, set, transpose and conjugate routines follow their definition",
  "Maximum, one, infinity and Frobenius norms of general, symmetric, Hermitian and triangular matrices, in every storage order and with or without workspace, equal the norm of the full matrix the operand represents. Copying, initialising, transposing, conjugating and random filling act on exactly the selected part, produce exactly the defined entries, and random filling is a pure function of its seed that stays in its stated range. Empty operands yield zero norms and no change.",
  ["inputs","configurations"],"all matrices, shapes, uplo/diag kinds, norm kinds and layouts",
  "Tests compare a few random sizes against another library routine.",
  ["lapack/lange.hpp","lapack/lansy.hpp","lapack/lanhe.hpp","lapack/lantr.hpp","lapack/infnorm_colmajor.hpp","lapack/infnorm_hermitian_colmajor.hpp","lapack/infnorm_symmetric_colmajor.hpp","lapack/infnorm_triangular_colmajor.hpp","lapack/lacpy.hpp","lapack/laset.hpp","lapack/transpose.hpp","lapack/conjugate.hpp","lapack/larnv.hpp"],
  [("row-sum accumulation","lapack/infnorm_colmajor.hpp"),("recursive blocked transpose","lapack/transpose.hpp")])
p("C18","In-place structured product kernels equal their out-of-place definition",
  "The kernels that multiply or solve with structured operands in place or out of place (triangular times triangular, triangular times its conjugate transpose, Hermitian times itself, triangle-only general product, mixed-precision triangular product, Hermitian-by-general product) produce exactly the value of the defining product in the stated triangle or operand. The result is independent of where the recursion or blocking splits the problem. Everything outside the output is unchanged.",
  ["inputs","configurations"],"all sizes across recursion and block thresholds, triangles, sides, operations, diagonals and scalars",
  "Tests run few sizes per flag combination and check norms of residuals.",
  ["lapack/trmm_out.hpp","lapack/trsm_tri.hpp","lapack/mult_uhu.hpp","lapack/mult_llh.hpp","lapack/mult_hehe.hpp","lapack/lauum_recursive.hpp","lapack/ul_mult.hpp","lapack/lu_mult.hpp","lapack/gemmtr.hpp","lapack/hemm2.hpp","lapack/trmm_blocked_mixed.hpp"],
  [("recursive splitting","lapack/mult_uhu.hpp")])
p("C19","Sequences of plane rotations are applied in the stated order",
  "Applying a sequence, or a wave-front of several sequences, of plane rotations to a matrix from either side, forward or backward, gives the same matrix as applying the rotations one by one in that order. The blocked and fused algorithm agrees for every number of sequences, matrix size and block size. Rotations that are the identity have no effect.",
  ["inputs","configurations"],"all sides, directions, matrix shapes, numbers of rotations and sequences, and block sizes",
  "Tests use a few shapes and random rotations.",
  ["lapack/rot_sequence.hpp","lapack/rot_sequence3.hpp","blas/rot.hpp"],
  [("wave-front blocking","lapack/rot_sequence3.hpp")])
p("C20","Safe scaling: no avoidable overflow or underflow across the exponent range",
  "Norms, sums of squares, plane and Householder reflector generation, complex division, reciprocal and ratio scaling return correctly scaled results whenever the exact result is representable, even where intermediate squares, products or reciprocals would overflow or underflow. Multiplying the input by a power of two multiplies the result by that power. Extreme, tiny, zero and mixed magnitudes obey the same law.",
  ["inputs"],"all magnitudes representable in each floating-point type, in all combinations",
  "Tests use a few extreme values; the law quantifies over the whole exponent range and all mixtures.",
  ["blas/nrm2.hpp","lapack/lassq.hpp","lapack/lapy2.hpp","lapack/lapy3.hpp","lapack/ladiv.hpp","lapack/lascl.hpp","lapack/rscl.hpp","lapack/larfg.hpp","blas/rotg.hpp","blas/lartg.hpp","base/constants.hpp"],
  [("Blue's accumulators","lapack/lassq.hpp"),("stepwise scaling","lapack/lascl.hpp")])
p("C21","C, CBLAS and legacy interfaces are faithful to the C++ routines",
  "Every exported C and CBLAS entry point and every legacy-style C++ overload performs exactly the operation its name and arguments describe, for each scalar type, row- and column-major order, every enumeration value and positive and negative increments. A row-major call on data is equivalent to the column-major call on the same mathematical matrix. Leading-dimension padding and elements between strides are untouched.",
  ["inputs","configurations"],"all exported entry points x types x layouts x enumeration values x increments x sizes",
  "The wrappers are only compiled, never executed, by the tests.",
  ["src/tlapack_cwrappers.cpp","legacy_api/blas.hpp","legacy_api/lapack.hpp","legacy_api/base/utils.hpp","legacy_api/base/legacyArray.hpp","legacy_api/blas/gemm.hpp"],
  [("macro-generated wrappers","src/tlapack_cwrappers.cpp"),("layout conversion","legacy_api/blas/gemm.hpp")])
p("C22","Sorting, merging and the secular-equation solvers keep order and root properties",
  "Sorting returns the input values in the requested order, merging returns a permutation that orders the concatenation of two sorted runs of either direction, and neither loses or duplicates an element. The secular-equation solvers return for each index the root that lies in its own interlacing interval, with the differences to the poles consistent with it. Deflation keeps every eigenvalue: kept and deflated entries together are a permutation of the input set up to rounding.",
  ["inputs"],"all value sequences (ties, sorted, reversed, long runs), run lengths and directions, all admissible pole/weight sets",
  "Tests sort a few random vectors and use one family for the secular equation.",
  ["lapack/lasrt.hpp","lapack/lamrg.hpp","lapack/laed2.hpp","lapack/laed4.hpp","lapack/laed5.hpp","lapack/laed6.hpp"],
  [("quicksort with insertion sort","lapack/lasrt.hpp"),("two-run merge","lapack/lamrg.hpp"),("rank-one secular iteration","lapack/laed4.hpp")])
p("C23","Eigenvectors of a Schur form satisfy their defining equation",
  "For each selected eigenvalue of a quasi-triangular matrix the computed right (left) eigenvector is nonzero and satisfies the eigenvalue equation to working accuracy, complex pairs included, in all three modes: all, selected, and back-transformed by a given matrix. The number and order of returned vectors follow the selection. The blocked and unblocked solvers agree for every block size, and the Schur matrix is unchanged.",
  ["inputs","configurations"],"all quasi-triangular matrices, selections, sides, modes and block sizes",
  "Tests use random matrices with one selection pattern.",
  ["lapack/trevc.hpp","lapack/trevc3.hpp","lapack/trevc_backsolve.hpp","lapack/trevc_forwardsolve.hpp","lapack/trevc3_backsolve.hpp","lapack/trevc3_forwardsolve.hpp","lapack/trevc_protect.hpp"],
  [("column bookkeeping of selections","lapack/trevc3.hpp")])
p("C24","Regularized least-squares solvers satisfy the normal equations",
  "Every method for the Tikhonov-regularized least-squares problem (via QR, bidiagonalization or SVD) returns the minimizer: its solution satisfies the regularized normal equations to working accuracy, for every tall shape, every number of right-hand sides and every regularization parameter including zero for full-rank problems. All methods therefore agree. A different choice of method never changes the answer.",
  ["inputs","configurations"],"all full-rank matrices, shapes, right-hand sides, parameters and methods",
  "Tests compare the methods on a few random sizes.",
  ["lapack/tkhnv.hpp","lapack/tik_qr.hpp","lapack/tik_bidiag_elden.hpp","lapack/tik_svd.hpp"],
  [("augmented factorization","lapack/tik_qr.hpp")])
p("C25","Results are accurate to the working precision of the scalar type",
  "Routines instantiated for an extended-precision real or complex type deliver what they promise for double: the accuracy of that type, not of a narrower one, over its whole exponent range. No intermediate result, constant, tolerance or scaling threshold is narrowed, so residuals shrink with the precision, exact data stay exact beyond the digits of double, and nothing under- or overflows that the type itself can represent.",
  ["inputs","configurations"],"all routines, all inputs with extended-precision digits or exponents",
  "The built tests only use float and double, in which a narrowed constant or intermediate result is invisible.",
  ["base/constants.hpp","base/types.hpp","base/utils.hpp","blas/rotg.hpp","blas/nrm2.hpp","lapack/lassq.hpp","lapack/larfg.hpp","lapack/lascl.hpp","lapack/laed4.hpp","lapack/svd22.hpp","lapack/steqr.hpp"],
  [("safe-scaling constants per type","base/constants.hpp"),("scaled sums of squares","lapack/lassq.hpp")])
p("C26","Routines work alike on every supported array type",
  "The generic routines accept every array type the library has a plugin for: given Eigen matrices, maps or blocks of either storage order and any stride they compute exactly what they compute on the library's own views, and touch only the designated elements. Slices, rows, columns, diagonals, transposes and reshapes of such arrays denote the elements their names say, alias the original storage and are writable.",
  ["inputs","configurations"],"all generic routines x array types, storage orders and strides; all slicing chains",
  "The built tests use only the library's own views; the Eigen plugin is not exercised.",
  ["plugins/eigen.hpp","base/arrayTraits.hpp","base/concepts.hpp","lapack/trmm_blocked_mixed.hpp"],
  [("slices, diagonals and reshape of Eigen arrays","plugins/eigen.hpp"),("matrix creation and type traits","base/arrayTraits.hpp")])
p("C27","Operands of different scalar types combine without loss",
  "Routines accept operands of different scalar types - real with complex, narrower with wider reals - and the result is the one obtained by first converting every operand to the common type: a real operand acts as a complex one with zero imaginary part, conjugation does not disturb it, and a value held in the wider type keeps its digits through products, sums, reflectors and rotations. Only the store into a narrower result rounds.",
  ["inputs","configurations"],"all type combinations that compile x flags x shapes x data",
  "Nearly all tests use one scalar type for all operands of a call.",
  ["base/types.hpp","base/scalar_type_traits.hpp","blas/gemm.hpp","blas/hemm.hpp","blas/trmm.hpp","blas/dot.hpp","lapack/larf.hpp","lapack/larfb.hpp","lapack/rot_sequence.hpp","lapack/lacpy.hpp"],
  [("common type of the operands","base/scalar_type_traits.hpp"),("accumulators of the products","blas/gemm.hpp")])
for x in P:
    for f in x["anchors"]["files"]:
        assert os.path.exists("/repo/"+f),f
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
