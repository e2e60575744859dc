-------------------------------- MODULE Num --------------------------------
(* Contracts of the floating-point calls.  e.ret is the record of             *)
(* measurements a driver took with instruments of its own (see drv/num.hpp): *)
(* errors in units of the last place of the stated scale (integers, rounded  *)
(* up; 10^9 stands for "not finite or enormous"), counts, positions and 0/1  *)
(* facts.  Which measurements a correct library may produce is decided here. *)
EXTENDS Scalars, Moves, Eigs

Within(x, tol) == x >= 0 /\ x <= tol
SeqOK(s, P(_)) == \A i \in 1..Len(s) : P(s[i])

(* cls: 1 the exact result is a normal number, 0 it overflows, 2 it is       *)
(* subnormal (then only the normal-range floor of the scale applies)         *)
Rep(cls, err, tol) == cls = 1 => Within(err, tol)

RotgOK(r) ==
  r.cls = 1 => /\ Within(r.r, 8) /\ Within(r.row1, 12) /\ Within(r.row2, 12)
               /\ Within(r.unit, 12) /\ r.z = 1

RotmgOK(r) ==
  IF r.null = 1 THEN r.flag = -2 /\ r.g11 = 0 /\ r.g22 = 0 /\ r.g12 = 0
  ELSE IF r.neg = 1 /\ r.flag = -1 THEN TRUE  \* d1 a^2 + d2 b^2 <= 0: no rotation
  ELSE /\ r.flag \in {-1, 0, 1}
       /\ Within(r.row1, 12) /\ Within(r.row2, 12)
       /\ (r.psd = 1 => Within(r.g11, 24) /\ Within(r.g22, 24) /\ Within(r.g12, 24))
       /\ Within(r.rotm1, 12) /\ Within(r.rotm2, 12)

NrmOK(r) ==
  LET t == 8 + 2 * r.n IN
  /\ Rep(r.cls, r.nrm2, t) /\ Rep(r.acls, r.asum, t) /\ Rep(r.qcls, r.lassq, t)
  /\ (r.n > 0 => /\ Rep(r.cls, r.fro1, t) /\ Rep(r.cls, r.tri, t)
                 /\ Rep(r.hcls, r.her, t) /\ Rep(r.scls, r.sym, t)
                 /\ Within(r.max1, 4))
  /\ (r.n > 1 => /\ Rep(r.cls, r.froh, t) /\ Rep(r.cls, r.fron, t)
                 /\ Within(r.maxh, 4) /\ Within(r.maxn, 4))

LapyOK(r) == Rep(r.cls2, r.lapy2, 6) /\ Rep(r.cls3, r.lapy3, 6)
LadivOK(r) == Rep(r.cls, r.div, 16)
(* the index of the entry of largest modulus, the first one of several: exact *)
(* up to the rounding of the moduli themselves                               *)
IamaxNum(r) == r.pad = 1 /\ (r.n > 0 => r.idx \in 0..(r.n - 1) /\ Within(r.dist, 3) /\ (r.dist = 0 => r.dup = 0))
ElemOK(r, tol) ==
  r.pad = 1 /\ \A i \in 1..Len(r.err) : Rep(r.cls[i], r.err[i], tol)
LarfgOK(r) ==
  /\ r.pad = 1
  /\ IF r.trivial = 1 THEN r.idok = 1
     ELSE r.cls = 1 =>
       LET t == 16 + 4 * r.n IN
         /\ r.real = 1 /\ Within(r.beta, t) /\ Within(r.map1, t) /\ Within(r.map2, t)
         /\ Within(r.unit, t) /\ r.taurange = 1

(* a factorization with stored reflectors: the factor times the unitary      *)
(* matrix reproduces the input, the reflectors are unitary, the diagonal is  *)
(* real, triangular block factors and the generated matrix agree with the    *)
(* reflectors                                                                *)
FactOK(r) ==
  /\ r.ret = 0 /\ r.gret = 0 /\ r.pad = 1 /\ r.gpad = 1
  /\ Within(r.res, 12) /\ Within(r.tau, 8) /\ r.dreal = 1
  /\ Within(r.T, 12) /\ Within(r.gerr, 12) /\ Within(r.orth, 16)
  /\ ("unref" \in DOMAIN r => r.unref = 1)

(* LU of any size, optionally followed by an inverse                         *)
LuNum(r) ==
  /\ r.pad = 1 /\ r.rng = 1 /\ r.ret >= 0
  /\ (r.ret = 0 => Within(r.res, 4) /\ Within(r.mult, 4) /\ r.nz = 1)
  /\ ("ires" \in DOMAIN r => r.iret = 0 /\ r.ipad = 1 /\ Within(r.ires, 8))
CholNum(r) ==
  /\ r.unref = 1 /\ r.pad = 1
  /\ IF r.bad # 0 THEN r.ret \in {r.bad, -777}
     ELSE /\ r.ret = 0 /\ r.dreal = 1 /\ Within(r.res, 4)
          /\ ("dpos" \in DOMAIN r => r.dpos = 1)
          /\ ("sret" \in DOMAIN r => r.sret = 0 /\ r.spad = 1 /\ Within(r.sres, 4))
(* Bunch-Kaufman: the pivot record is well formed, the product of the stored *)
(* factors is the matrix, the code names an exactly zero 1x1 block           *)
LdlNum(r) ==
  /\ r.unref = 1 /\ r.pad = 1 /\ r.pivok = 1
  /\ Within(r.res, 8) /\ r.dreal = 1
  /\ (r.ret = 0 <=> r.zf = 0) /\ r.ret >= 0

(* regularized least squares: the normal equations A^H (b - A x) = lambda^2 x  *)
(* hold relative to |A| (|r| + |A| |x|) + lambda^2 |x|; the QR method treats  *)
(* [A; lambda I] as one matrix, its scale is the norm of that matrix          *)
TikOK(a, r) ==
  /\ r.fin = 1 /\ r.pad = 1 /\ Within(r.aug, 12)
  /\ (a.var \in {"e", "s", "E", "S"} => Within(r.res, 12))

NumOps == EigsOps \cup {"n_tik", "s_move", "n_lu", "n_trtri", "n_chol", "n_ldl", "n_fact", "s_rotg", "s_rotmg", "s_nrm", "s_lapy", "s_ladiv", "s_iamax", "s_rscl", "s_larfg", "s_lascl"}
NumAccept(e) ==
  LET r == e.ret IN
  CASE e.op \in EigsOps -> EigsAccept(e)
    [] e.op = "n_tik" -> TikOK(e.a, r)
    [] e.op = "n_fact" -> FactOK(r)
    [] e.op = "s_move" -> MoveOK(e.a, r)
    [] e.op = "n_lu" -> LuNum(r)
    [] e.op = "n_trtri" -> r.ret = 0 /\ r.unref = 1 /\ r.pad = 1 /\ Within(r.res, 8)
    [] e.op = "n_chol" -> CholNum(r)
    [] e.op = "n_ldl" -> LdlNum(r)
    [] e.op = "s_rotg"  -> RotgOK(r)
    [] e.op = "s_rotmg" -> RotmgOK(r)
    [] e.op = "s_nrm"   -> NrmOK(r)
    [] e.op = "s_lapy"  -> LapyOK(r)
    [] e.op = "s_ladiv" -> LadivOK(r)
    [] e.op = "s_iamax" -> IamaxNum(r)
    [] e.op = "s_rscl"  -> ElemOK(r, 24)
    [] e.op = "s_larfg" -> LarfgOK(r)
    [] e.op = "s_lascl" -> ElemOK(r, 8)
=============================================================================
