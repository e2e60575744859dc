-------------------------------- MODULE Pre --------------------------------
(* The calls each routine accepts, as a predicate over its flags and the      *)
(* dimensions of its operands.  An operand is <<rows, columns>> or <<size>>.  *)
(* A call outside is refused with a domain error before anything a caller     *)
(* can see is modified; a call inside is never refused that way.              *)
EXTENDS Integers, Sequences

PMin(x, y) == IF x <= y THEN x ELSE y
PMax(x, y) == IF x >= y THEN x ELSE y
R(M) == M[1]
K(M) == M[2]
Sz(v) == v[1]
Square(M) == R(M) = K(M)
\* shape of op(M)
Of(op, M) == IF op \in {"N", "J"} THEN <<R(M), K(M)>> ELSE <<K(M), R(M)>>

Op3 == {"N", "T", "C"}
Sides == {"L", "R"}
Dirs == {"F", "B"}
Stores == {"C", "R"}
UL == {"U", "L"}
ULG == {"U", "L", "G"}
Uplos == {"U", "L", "G", "H", "h", "S", "s"}
Diags == {"U", "N"}
Norms == {"M", "1", "I", "F"}
Cplx(t) == t \in {"c", "z"}

\* the matrix on one side of C
SideDim(a, C) == IF a.side = "L" THEN R(C) ELSE K(C)
MulOk(A, B, C) == K(A) = R(B) /\ R(C) = R(A) /\ K(C) = K(B)
SymMul(a)  == a.side \in Sides /\ a.uplo \in ULG /\ Square(a.A) /\ R(a.A) = SideDim(a, a.B) /\ a.C = a.B
RankK(a, ops) == a.uplo \in ULG /\ a.trans \in ops /\ Square(a.C) /\ R(a.C) = Of(a.trans, a.A)[1]
Tri(a, ops) == a.side \in Sides /\ a.uplo \in UL /\ a.trans \in ops /\ a.diag \in Diags /\ Square(a.A) /\ R(a.A) = SideDim(a, a.B)
TriV(a) == a.uplo \in UL /\ a.trans \in Op3 \cup {"J"} /\ a.diag \in Diags /\ Square(a.A) /\ Sz(a.x) = R(a.A)
SymV(a) == a.uplo \in UL /\ Square(a.A) /\ Sz(a.x) = R(a.A)
ApplyOps(t) == IF Cplx(t) THEN {"N", "C"} ELSE {"N", "T", "C"}
\* k reflectors of length n, one after the other
Long(st, V) == IF st = "C" THEN R(V) ELSE K(V)
Many(st, V) == IF st = "C" THEN K(V) ELSE R(V)
Short(v, M) == Sz(v) < PMin(R(M), K(M))
Range_(a, n) == 0 <= a.ilo /\ a.ilo <= a.ihi /\ a.ihi <= PMax(1, n)
Chol(a) == a.uplo \in UL /\ Square(a.A)
All(n, S) == \A M \in S : M = <<n, n>>

Pre(t, a) ==
  CASE a.r = "gemm"  -> a.ta \in Op3 /\ a.tb \in Op3 /\ MulOk(Of(a.ta, a.A), Of(a.tb, a.B), a.C)
    [] a.r = "gemmtr" -> a.uplo \in UL /\ a.ta \in Op3 /\ a.tb \in Op3 /\ Square(a.C) /\ MulOk(Of(a.ta, a.A), Of(a.tb, a.B), a.C)
    [] a.r \in {"hemm", "symm"} -> SymMul(a)
    [] a.r = "herk"  -> RankK(a, {"N", "C"})
    [] a.r = "syrk"  -> RankK(a, {"N", "T"})
    [] a.r = "her2k" -> RankK(a, {"N", "C"}) /\ a.B = a.A
    [] a.r = "syr2k" -> RankK(a, {"N", "T"}) /\ a.B = a.A
    [] a.r \in {"trmm", "trsm"} -> Tri(a, Op3)
    [] a.r = "gemv" -> a.trans \in Op3 \cup {"J"} /\ LET O == Of(a.trans, a.A) IN Sz(a.x) = K(O) /\ Sz(a.y) = R(O)
    [] a.r \in {"hemv", "symv"} -> SymV(a) /\ Sz(a.y) = R(a.A)
    [] a.r \in {"ger", "geru"} -> Sz(a.x) = R(a.A) /\ Sz(a.y) = K(a.A)
    [] a.r \in {"her", "syr"} -> SymV(a)
    [] a.r \in {"her2", "syr2"} -> SymV(a) /\ Sz(a.y) = R(a.A)
    [] a.r \in {"trmv", "trsv"} -> TriV(a)
    [] a.r \in {"axpy", "copy"} -> Sz(a.y) >= Sz(a.x)
    [] a.r \in {"swap", "dot", "dotu", "rot", "rotm"} -> Sz(a.y) = Sz(a.x)
    \* ---- reflectors
    [] a.r = "larf"  -> a.side \in Sides /\ a.storev \in Stores /\ Sz(a.x) = SideDim(a, a.C) /\ Sz(a.C0) = (IF a.side = "L" THEN K(a.C) ELSE R(a.C))
    [] a.r = "larfv" -> a.side \in Sides /\ a.direc \in Dirs /\ a.storev \in Stores /\ Sz(a.x) = SideDim(a, a.C)
    [] a.r = "larft" -> a.direc \in Dirs /\ a.storev \in Stores /\ Sz(a.tau) <= Many(a.storev, a.V) /\ R(a.T) >= Sz(a.tau) /\ K(a.T) >= Sz(a.tau)
    [] a.r = "larfb" -> a.side \in Sides /\ a.trans \in ApplyOps(t) /\ a.direc \in Dirs /\ a.storev \in Stores
                        /\ Square(a.T) /\ Many(a.storev, a.V) = R(a.T) /\ Long(a.storev, a.V) = SideDim(a, a.C)
    [] a.r \in {"geqr2", "gelq2", "geql2", "gerq2", "geqrf", "gelqf", "geqlf", "gerqf"} -> ~Short(a.tau, a.A)
    [] a.r = "gelqt" -> R(a.T) >= R(a.A)
    [] a.r \in {"ungq", "ungq_level2"} -> a.direc \in Dirs /\ Long(a.storev, a.A) >= Many(a.storev, a.A) /\ Many(a.storev, a.A) >= Sz(a.tau)
    [] a.r \in {"unmq", "unmq_level2"} -> a.side \in Sides /\ a.trans \in ApplyOps(t) /\ a.direc \in Dirs
                        /\ Many(a.storev, a.V) = Sz(a.tau) /\ Long(a.storev, a.V) = SideDim(a, a.C)
    [] a.r \in {"gebd2", "gebrd"} -> ~Short(a.tauv, a.A) /\ ~Short(a.tauw, a.A)
    [] a.r \in {"gehd2", "gehrd"} -> Square(a.A) /\ Sz(a.tau) + 1 >= R(a.A) /\ Range_(a, R(a.A))
    [] a.r = "hetd2" -> a.uplo \in UL /\ Square(a.A) /\ Sz(a.tau) + 1 >= R(a.A)
    \* ---- factorizations
    [] a.r \in {"getrf0", "getrfr"} -> ~Short(a.piv, a.A)
    [] a.r \in {"getri_uili", "getri_uxli", "lu_mult", "ul_mult", "mult_llh", "mult_uhu"} -> Square(a.A)
    [] a.r \in {"potf2", "potrf2", "potrf_blocked", "potrf_rl", "potrf", "potri", "lauum"} -> Chol(a)
    [] a.r = "potrs" -> Chol(a) /\ R(a.B) = R(a.A)
    [] a.r = "pttrf" -> Sz(a.d) = Sz(a.e) + 1
    [] a.r = "trtri" -> Chol(a) /\ a.diag \in Diags
    [] a.r = "hetrf" -> Chol(a) /\ Sz(a.piv) >= R(a.A)
    [] a.r = "hemm2" -> a.side \in Sides /\ a.uplo \in ULG /\ a.tb \in Op3 /\ Square(a.A)
                        /\ LET B == Of(a.tb, a.B) IN a.C = B /\ R(a.A) = SideDim(a, B)
    \* ---- utilities
    [] a.r = "lacpy" -> LET m == R(a.A) n == K(a.A) IN a.uplo \in ULG /\ R(a.B) >= (IF a.uplo = "U" THEN PMin(m, n) ELSE m) /\ K(a.B) >= (IF a.uplo = "L" THEN PMin(m, n) ELSE n)
    [] a.r = "laset" -> a.uplo \in ULG
    [] a.r = "lascl" -> a.uplo \in Uplos /\ a.b = 1 /\ a.a # 2
    [] a.r = "lasclb" -> 0 <= a.kl /\ a.kl < R(a.A) /\ 0 <= a.ku /\ a.ku < K(a.A) /\ a.b = 1 /\ a.a # 2
    [] a.r = "lange" -> a.norm \in Norms
    [] a.r \in {"lansy", "lanhe"} -> a.norm \in Norms /\ a.uplo \in UL /\ Square(a.A)
    [] a.r = "lantr" -> a.norm \in Norms /\ a.uplo \in UL /\ a.diag \in Diags
    [] a.r \in {"hasnan", "hasinf"} -> a.uplo \in Uplos
    [] a.r \in {"transpose", "conjtranspose"} -> R(a.B) = K(a.A) /\ K(a.B) = R(a.A) /\ a.nx >= 2
    [] a.r = "rot_sequence" -> LET n == SideDim(a, a.A) k == IF n = 0 THEN 0 ELSE n - 1 IN
                        a.side \in Sides /\ a.direc \in Dirs /\ Sz(a.c) = k /\ Sz(a.s) = k
    \* ---- spectral
    [] a.r = "lahqr" -> Square(a.A) /\ Sz(a.w) = R(a.A) /\ (a.wz = 0 \/ All(R(a.A), {a.Z}))
    [] a.r = "gghrd" -> LET n == K(a.A) IN All(n, {a.A, a.B, a.Q, a.Z}) /\ 0 <= a.ilo /\ a.ilo < n /\ a.ilo < a.ihi /\ a.ihi <= n
    [] a.r = "schur_swap" -> LET n == K(a.A) big == IF Cplx(t) THEN 1 ELSE 2 IN All(n, {a.A, a.Q}) /\ a.n1 \in 1..big /\ a.n2 \in 1..big /\ 0 <= a.j0 /\ a.j0 + a.n1 + a.n2 <= n
    [] a.r = "tkhnv" -> R(a.A) >= K(a.A) /\ R(a.b) = R(a.A)

(* Applying or generating no reflectors, or acting on an operand without      *)
(* elements, may return before the other arguments are looked at.             *)
Reflecting == {"larfb", "unmq", "unmq_level2", "ungq", "ungq_level2", "gehrd", "gehd2", "larft", "larfv", "gebrd", "gebd2", "tkhnv",
               "geqr2", "gelq2", "geql2", "gerq2", "geqrf", "gelqf", "geqlf", "gerqf", "hetd2"}
None(M) == R(M) = 0 \/ K(M) = 0
Idle(a) == a.r \in Reflecting /\ (\/ "A" \in DOMAIN a /\ None(a.A)
                                  \/ "C" \in DOMAIN a /\ None(a.C)
                                  \/ "T" \in DOMAIN a /\ None(a.T)
                                  \/ "V" \in DOMAIN a /\ None(a.V)
                                  \/ "tau" \in DOMAIN a /\ Sz(a.tau) = 0)

(* what a call may do: ret = <<failure, nothing modified, guards intact>> *)
PreOK(t, a, ret) ==
  /\ ret[3] = 1
  /\ IF Pre(t, a) THEN ret[1] # "domain"
     ELSE ret[2] = 1 /\ (ret[1] = "domain" \/ (ret[1] = "" /\ Idle(a)))
(* ---- the pointer-based interfaces: flags, sizes, strides, leading          *)
(* dimensions.  An operand of m rows and n columns needs a leading dimension  *)
(* that spans a column (column major) or a row (row major).                   *)
Layouts == {"C", "R"}
Span(l, m, n, ld) == ld >= (IF l = "R" THEN n ELSE m)
SpanOp(l, op, m, n, ld) == IF op = "N" THEN Span(l, m, n, ld) ELSE Span(l, n, m, ld)
Side_(a) == IF a.side = "L" THEN a.m ELSE a.n
Steps2(a) == a.incx # 0 /\ a.incy # 0
L2(a) == a.layout \in Layouts
LSym(a) == L2(a) /\ a.side \in Sides /\ a.uplo \in ULG /\ a.lda >= Side_(a) /\ Span(a.layout, a.m, a.n, a.ldb) /\ Span(a.layout, a.m, a.n, a.ldc)
LTri(a) == L2(a) /\ a.side \in Sides /\ a.uplo \in UL /\ a.trans \in Op3 /\ a.diag \in Diags /\ a.lda >= Side_(a) /\ Span(a.layout, a.m, a.n, a.ldb)
LTriV(a) == L2(a) /\ a.uplo \in UL /\ a.trans \in Op3 /\ a.diag \in Diags /\ a.lda >= a.n /\ a.incx # 0
LSymV(a) == L2(a) /\ a.uplo \in UL /\ a.lda >= a.n /\ a.incx # 0
LRank(t, a, not) == L2(a) /\ a.uplo \in ULG /\ a.trans \in (IF Cplx(t) THEN Op3 \ {not} ELSE Op3) /\ a.ldc >= a.n /\ SpanOp(a.layout, a.trans, a.n, a.k, a.lda)
LNorm(a) == a.norm \in Norms
Banded == {"B", "Q", "Z"}

LPre(t, a) ==
  CASE a.r \in {"asum", "nrm2", "scal", "iamax"} -> a.incx > 0
    [] a.r \in {"axpy", "copy", "swap", "dot", "dotu", "rot"} -> Steps2(a)
    [] a.r = "rotm" -> Steps2(a) /\ a.flag \in -2..1
    [] a.r = "gemv" -> L2(a) /\ a.trans \in Op3 /\ Span(a.layout, a.m, a.n, a.lda) /\ Steps2(a)
    [] a.r \in {"ger", "geru"} -> L2(a) /\ Span(a.layout, a.m, a.n, a.lda) /\ Steps2(a)
    [] a.r \in {"hemv", "symv", "her2", "syr2"} -> LSymV(a) /\ a.incy # 0
    [] a.r \in {"her", "syr"} -> LSymV(a)
    [] a.r \in {"trmv", "trsv"} -> LTriV(a)
    [] a.r = "gemm" -> L2(a) /\ a.ta \in Op3 /\ a.tb \in Op3 /\ Span(a.layout, a.m, a.n, a.ldc)
                       /\ SpanOp(a.layout, a.ta, a.m, a.k, a.lda) /\ SpanOp(a.layout, a.tb, a.k, a.n, a.ldb)
    [] a.r \in {"hemm", "symm"} -> LSym(a)
    [] a.r = "herk" -> LRank(t, a, "T")
    [] a.r = "syrk" -> LRank(t, a, "C")
    [] a.r = "her2k" -> LRank(t, a, "T") /\ SpanOp(a.layout, a.trans, a.n, a.k, a.ldb)
    [] a.r = "syr2k" -> LRank(t, a, "C") /\ SpanOp(a.layout, a.trans, a.n, a.k, a.ldb)
    [] a.r \in {"trmm", "trsm"} -> LTri(a)
    [] a.r = "geqr2" -> a.lda >= a.m
    [] a.r = "ung2r" -> a.n <= a.m /\ a.k <= a.n /\ a.lda >= a.m
    [] a.r \in {"unm2r", "unmqr"} -> a.side \in Sides /\ a.trans \in ApplyOps(t) /\ a.k <= Side_(a) /\ a.lda >= Side_(a) /\ a.ldc >= a.m
    [] a.r = "lacpy" -> a.uplo \in ULG /\ a.lda >= a.m /\ a.ldb >= a.m
    [] a.r = "laset" -> a.uplo \in ULG /\ a.lda >= a.m
    [] a.r = "lange" -> LNorm(a) /\ a.lda >= a.m
    [] a.r \in {"lanhe", "lansy"} -> LNorm(a) /\ a.uplo \in UL /\ a.lda >= a.n
    [] a.r = "lantr" -> LNorm(a) /\ a.uplo \in UL /\ a.diag \in Diags /\ a.lda >= a.m
    [] a.r = "larf" -> a.side \in Sides /\ a.incx # 0 /\ a.ldc >= a.m
    [] a.r = "larft" -> a.direc \in Dirs /\ a.storev \in Stores /\ a.k >= 1 /\ a.lda >= (IF a.storev = "C" THEN a.n ELSE a.k) /\ a.ldc >= a.k
    [] a.r = "larfb" -> a.side \in Sides /\ a.trans \in ApplyOps(t) /\ a.direc \in Dirs /\ a.storev \in Stores
                        /\ a.lda >= (IF a.storev = "C" THEN Side_(a) ELSE a.k) /\ a.ldb >= a.k /\ a.ldc >= a.m
    [] a.r = "lascl" -> IF a.mt \in Banded
                        THEN /\ a.kl <= PMax(a.m - 1, 0) /\ a.ku <= PMax(a.n - 1, 0) /\ (a.mt = "Z" \/ a.kl = a.ku)
                             /\ a.lda >= (CASE a.mt = "B" -> a.kl + 1 [] a.mt = "Q" -> a.ku + 1 [] OTHER -> 2 * a.kl + a.ku + 1)
                        ELSE a.mt \in {"G", "L", "U", "H"} /\ a.lda >= a.m
    [] a.r = "potrf" -> a.uplo \in UL /\ a.lda >= a.n
    [] a.r = "potrs" -> a.uplo \in UL /\ a.lda >= a.n /\ a.ldb >= a.n
    \* ---- making a view
    [] a.r = "colmat" -> a.lda >= a.m
    [] a.r = "rowmat" -> a.lda >= a.n
    [] a.r = "bandmat" -> (a.m = 0 \/ a.kl < a.m) /\ (a.n = 0 \/ a.ku < a.n)

(* Nothing to do: LAPACK routines may return before looking at the rest.      *)
LLapack == {"geqr2", "ung2r", "unm2r", "unmqr", "laset", "lange", "lanhe", "lansy", "lantr", "larfb", "larft", "lascl", "larf"}
LIdle(a) == a.r \in LLapack /\ (\/ "m" \in DOMAIN a /\ a.m = 0
                                \/ "n" \in DOMAIN a /\ a.n = 0
                                \/ "k" \in DOMAIN a /\ a.k = 0)

LPreOK(t, a, ret) ==
  /\ ret[3] = 1
  /\ IF LPre(t, a) THEN ret[1] # "domain" \/ (a.r = "lascl" /\ LIdle(a))
     ELSE ret[2] = 1 /\ (ret[1] = "domain" \/ (ret[1] = "" /\ LIdle(a)))
=============================================================================
