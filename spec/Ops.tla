-------------------------------- MODULE Ops --------------------------------
(* What each library call may do to the memory of its caller.                *)
(* Accept(e, mem, post): the call described by event e, made with memory     *)
(* mem, may leave memory post and return e.ret.                              *)
EXTENDS Fac, Num, Secular, Legacy
VW == INSTANCE Views
WK == INSTANCE Work
PR == INSTANCE Pre

BlasOps3 == {"gemm", "hemm", "symm", "herk", "syrk", "her2k", "syr2k", "trmm"}
After3(e, mem, a) ==
  CASE e.op = "gemm"  -> GemmX(mem, a)
    [] e.op = "hemm"  -> HemmX(mem, a)
    [] e.op = "symm"  -> SymmX(mem, a)
    [] e.op = "herk"  -> HerkX(mem, a)
    [] e.op = "syrk"  -> SyrkX(mem, a)
    [] e.op = "her2k" -> Her2kX(mem, a)
    [] e.op = "syr2k" -> Syr2kX(mem, a)
    [] e.op = "trmm"  -> TrmmX(mem, a)
BlasOps2 == {"gemv", "hemv", "symv", "ger", "geru", "her", "syr", "her2", "syr2", "trmv"}
After2(e, mem, a) ==
  CASE e.op = "gemv" -> GemvX(mem, a)
    [] e.op = "hemv" -> HemvX(mem, a)
    [] e.op = "symv" -> SymvX(mem, a)
    [] e.op = "ger"  -> GerX(mem, a, TRUE)
    [] e.op = "geru" -> GerX(mem, a, FALSE)
    [] e.op = "her"  -> HerX(mem, a)
    [] e.op = "syr"  -> SyrX(mem, a)
    [] e.op = "her2" -> Her2X(mem, a)
    [] e.op = "syr2" -> Syr2X(mem, a)
    [] e.op = "trmv" -> TrmvX(mem, a)
BlasOps1 == {"copy", "axpy", "swap", "scal", "rot", "rotm"}
After1(e, mem, a) ==
  CASE e.op = "copy" -> CopyX(mem, a)
    [] e.op = "axpy" -> AxpyX(mem, a)
    [] e.op = "swap" -> SwapX(mem, a)
    [] e.op = "scal" -> ScalX(mem, a)
    [] e.op = "rot"  -> RotX(mem, a)
    [] e.op = "rotm" -> RotmX(mem, a)

(* Exceptional values in the output operand (property C16): an ordinary      *)
(* coefficient of the old output, zero included, lets them through, exactly  *)
(* where they sit; an omitted coefficient (strong zero) suppresses them.     *)
Clean(mem) == [b \in DOMAIN mem |-> TLCEval([k \in 1..Len(mem[b]) |->
                IF IsNum(mem[b][k]) THEN mem[b][k] ELSE Zero])]
Rank1 == {"ger", "geru", "her", "syr", "her2", "syr2"}
OutView(e) == LET a == e.a IN
  CASE e.op \in Rank1 -> a.A [] "C" \in DOMAIN a -> a.C [] "y" \in DOMAIN a -> a.y [] OTHER -> a.x
OldRead(e) == "beta" \in DOMAIN e.a \/ e.op \in Rank1 \cup {"scal", "axpy"}
ExcAfter(e, mem, a) ==
  IF e.op \in BlasOps3 THEN After3(e, mem, a)
  ELSE IF e.op \in BlasOps2 THEN After2(e, mem, a) ELSE After1(e, mem, a)
ExcOutOK(e, mem, post) ==
  LET a == e.a
      v == OutView(e)
      cl == Clean(mem)
      w == ExcAfter(e, cl, a)
      out(k) == LET ij == InvPos(v, k)
                IN  ij[1] > 0 /\ (IF "uplo" \in DOMAIN a /\ e.op \notin {"hemm", "symm", "hemv", "symv"}
                                  THEN InUplo(a.uplo, ij[1], ij[2]) ELSE TRUE)
  IN  \A b \in DOMAIN mem : \A k \in 1..Len(mem[b]) :
        IF b # v[1] \/ ~out(k) THEN post[b][k] = mem[b][k]
        ELSE IF ~IsNum(mem[b][k]) /\ OldRead(e) THEN ~IsNum(post[b][k])
        ELSE post[b][k] = w[b][k]

Accept(e, mem, post) ==
  LET a == e.a IN
  CASE "exc" \in DOMAIN e.x -> ExcOutOK(e, mem, post)
    [] e.op \in BlasOps3 -> post = After3(e, mem, a)
    [] e.op = "trsm" -> TrsmOK(mem, post, a)
    [] e.op \in BlasOps2 -> post = After2(e, mem, a)
    [] e.op = "trsv" -> TrsvOK(mem, post, a)
    [] e.op \in BlasOps1 -> post = After1(e, mem, a)
    [] e.op = "dot"  -> post = mem /\ DotOK(mem, a, TRUE, e.ret)
    [] e.op = "dotu" -> post = mem /\ DotOK(mem, a, FALSE, e.ret)
    [] e.op = "asum" -> post = mem /\ (IF NumV(mem, a.x) THEN e.ret = AsumX(mem, a) ELSE e.ret = SumCode(mem, a.x))
    [] e.op = "nrm2" -> post = mem /\ (IF NumV(mem, a.x) THEN IsNum(e.ret) /\ e.ret[1] >= 0
                                                     /\ e.ret[1] * e.ret[1] = SumSq(mem, a.x)
                                   ELSE e.ret = SumCode(mem, a.x))
    [] e.op = "iamax" -> post = mem /\ e.ret = IamaxR(mem, a)
    [] e.op \in UtilOps -> UtilAccept(e, mem, post)
    [] e.op \in KernOps -> KernAccept(e, mem, post)
    [] e.op \in RotOps -> RotAccept(e, mem, post)
    [] e.op \in HouseOps -> HouseAccept(e, mem, post)
    [] e.op \in OrthoOps -> OrthoAccept(e, mem, post)
    [] e.op \in FacOps -> FacAccept(e, mem, post)
    [] e.op \in LegacyOps -> LegacyAccept(e, mem, post)
    [] e.op = "pre" -> PR!PreOK(e.t, a, e.ret) /\ post = mem
    [] e.op = "lpre" -> PR!LPreOK(e.t, a, e.ret) /\ post = mem
    [] e.op \in WK!WorkOps -> WK!WorkAccept(e, mem, post)
    [] e.op \in VW!ViewOps -> VW!ViewAccept(e, mem, post)
    [] e.op \in SecOps -> SecAccept(e, mem, post)
    [] e.op \in SecNumOps -> post = mem /\ SecNumAccept(e)
    [] e.op \in NumOps -> post = mem /\ NumAccept(e)
=============================================================================
