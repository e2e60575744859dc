-------------------------------- MODULE Kern --------------------------------
(* Structured product kernels: the defining product of each, stored in the   *)
(* stated triangle or operand and nowhere else.                              *)
EXTENDS Util

GemmtrX(mem, a) ==
  LET n == VM(a.C)
      k == IF a.ta = "N" THEN VN(a.A) ELSE VM(a.A)
      A == OpM(a.ta, Get(mem, a.A), VM(a.A), VN(a.A))
      B == OpM(a.tb, Get(mem, a.B), VM(a.B), VN(a.B))
  IN  PutU(mem, a.C, AddM(ScM(a.alpha, MatMul(A, B, n, n, k), n, n),
                          Scaled(a, Get(mem, a.C), n, n), n, n), a.uplo)
(* C := alpha F op(B) + beta C or alpha op(B) F + beta C *)
SideOut(mem, a, F, tb) ==
  LET m == VM(a.C)  n == VN(a.C)
      B == OpM(tb, Get(mem, a.B), VM(a.B), VN(a.B))
  IN  Put(mem, a.C, AddM(ScM(a.alpha, SideProd(a.side, F, B, m, n), m, n),
                         Scaled(a, Get(mem, a.C), m, n), m, n))
Hemm2X(mem, a) == SideOut(mem, a, HermFull(Get(mem, a.A), a.uplo, VM(a.A)), a.tb)
TrmmOutX(mem, a) == SideOut(mem, a, TriFull(Get(mem, a.A), a.uplo, a.diag, VM(a.A), VM(a.A)), a.tb)
MultHeheX(mem, a) ==
  LET n == VM(a.C)
  IN  Put(mem, a.C, AddM(ScM(a.alpha, MatMul(HermFull(Get(mem, a.A), a.uplo, n),
                                             HermFull(Get(mem, a.B), a.uplo, n), n, n, n), n, n),
                         Scaled(a, Get(mem, a.C), n, n), n, n))
(* op(A) X = alpha B or X op(A) = alpha B, all of shape uplo *)
TrsmTriOK(mem, post, a) ==
  LET n == VM(a.B)
      ua == IF a.trans = "N" THEN a.uplo ELSE IF a.uplo = "U" THEN "L" ELSE "U"
      A == OpM(a.trans, TriFull(Get(mem, a.A), ua, a.diag, n, n), n, n)
      X == TriFull(Get(post, a.B), a.uplo, "N", n, n)
      B == TriFull(Get(mem, a.B), a.uplo, "N", n, n)
  IN  /\ FrameMask(mem, post, a.B, LAMBDA i, j : InUplo(a.uplo, i, j))
      /\ AllNum(X, n, n)
      /\ EqM(SideProd(a.side, A, X, n, n), ScM(a.alpha, B, n, n), n, n)
LauumX(mem, a) ==
  LET n == VM(a.A)  T == TriFull(Get(mem, a.A), a.uplo, "N", n, n)  H == CtM(T, n, n)
  IN  PutU(mem, a.A, IF a.uplo = "L" THEN MatMul(H, T, n, n, n) ELSE MatMul(T, H, n, n, n), a.uplo)
MultUhuX(mem, a) ==
  LET n == VM(a.A)  T == TriFull(Get(mem, a.A), "U", "N", n, n)
  IN  PutU(mem, a.A, MatMul(CtM(T, n, n), T, n, n, n), "U")
MultLlhX(mem, a) ==
  LET n == VM(a.A)  T == TriFull(Get(mem, a.A), "L", "N", n, n)
  IN  PutU(mem, a.A, MatMul(T, CtM(T, n, n), n, n, n), "L")
LuMultX(mem, a, ul) ==
  LET n == VM(a.A)  A == Get(mem, a.A)
      L == TriFull(A, "L", "U", n, n)  U == TriFull(A, "U", "N", n, n)
  IN  Put(mem, a.A, IF ul THEN MatMul(U, L, n, n, n) ELSE MatMul(L, U, n, n, n))

KernOps == {"gemmtr", "hemm2", "mult_hehe", "trmm_out", "trsm_tri", "lauum", "mult_uhu", "mult_llh",
            "ul_mult", "lu_mult", "trmm_blocked_mixed"}
KernAccept(e, mem, post) ==
  LET a == e.a IN
  CASE e.op = "gemmtr" -> post = GemmtrX(mem, a)
    [] e.op = "hemm2" -> post = Hemm2X(mem, a)
    [] e.op = "trmm_out" -> post = TrmmOutX(mem, a)
    [] e.op = "mult_hehe" -> post = MultHeheX(mem, a) /\ e.ret = 0   \* nothing printed
    [] e.op = "trsm_tri" -> TrsmTriOK(mem, post, a)
    [] e.op = "lauum" -> post = LauumX(mem, a) /\ e.ret = 0
    [] e.op = "mult_uhu" -> post = MultUhuX(mem, a)
    [] e.op = "mult_llh" -> post = MultLlhX(mem, a)
    [] e.op = "ul_mult" -> post = LuMultX(mem, a, TRUE) /\ e.ret = 0
    [] e.op = "lu_mult" -> post = LuMultX(mem, a, FALSE)
    [] e.op = "trmm_blocked_mixed" ->
         LET b == TrmmX(mem, a) IN post = Put(b, a.W, Get(post, a.W))
=============================================================================
