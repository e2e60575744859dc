------------------------------ MODULE Legacy ------------------------------
(* Pointer-based interfaces.  Calls that exist natively carry the native     *)
(* operation name and are judged by its formula; here are the rest.          *)
EXTENDS Util

(* band storage: element (i, j) of the matrix, 0-based, in row               *)
(* top + ku + i - j of column j of the array                                 *)
BandKl(a) == IF a.mt = "Q" THEN 0 ELSE a.kl
BandKu(a) == IF a.mt = "B" THEN 0 ELSE a.ku
BandTop(a) == IF a.mt = "Z" THEN a.kl ELSE 0
BandIn(a, r, j) ==
  LET i == (r - 1) - BandTop(a) - BandKu(a) + (j - 1)
  IN  j <= a.n /\ i >= 0 /\ i < a.m /\ (r - 1) >= BandTop(a)
      /\ i - (j - 1) <= BandKl(a) /\ (j - 1) - i <= BandKu(a)
LasclbX(mem, a) ==
  LET A == Get(mem, a.A)
      q == a.a[1] \div a.b[1]
      M == Mk(VM(a.A), VN(a.A), LAMBDA r, j : IF BandIn(a, r, j) THEN Mul(<<q, 0>>, A[r][j]) ELSE A[r][j])
  IN  PutMask(mem, a.A, M, LAMBDA r, j : BandIn(a, r, j))

LegacyOps == {"l_rotg", "l_rotmg", "l_larfg", "l_lassq", "l_larnv", "l_geqr2", "l_lasclb"}
LegacyAccept(e, mem, post) ==
  LET a == e.a IN
  CASE e.op = "l_lasclb" -> post = LasclbX(mem, a) /\ e.ret = 0
    [] e.op = "l_larfg" -> e.ret.same = 1 /\ Frame(mem, post, a.x)
    [] OTHER -> e.ret.same = 1 /\ post = mem
=============================================================================
