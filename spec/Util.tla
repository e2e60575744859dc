-------------------------------- MODULE Util --------------------------------
(* Norms, copies, initialisation, transposition, scaling, NaN/Inf search.    *)
EXTENDS Blas

IsNaN(x) == Len(x) = 3 /\ x[3] = 1
IsInfty(x) == Len(x) = 3 /\ x[3] \in {2, 3}
BandRef(kl, ku, i, j) == i <= j + kl /\ j <= i + ku
(* the part of A a call refers to *)
Ref(a, i, j) == IF "kl" \in DOMAIN a THEN BandRef(a.kl, a.ku, i, j) ELSE InUplo(a.uplo, i, j)

(* the full matrix a norm routine's operand stands for, and its shape *)
NormFull(op, mem, a) ==
  LET A == Get(mem, a.A)  m == VM(a.A)  n == VN(a.A) IN
  CASE op \in {"lange", "infg"} -> A
    [] op \in {"lansy", "infs"} -> SymFull(A, a.uplo, n)
    [] op \in {"lanhe", "infh"} -> HermFull(A, a.uplo, n)
    [] op \in {"lantr", "inft"} -> TriFull(A, a.uplo, a.diag, m, n)

(* integer absolute value of a Gaussian integer whose modulus is an integer *)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(q, r) == IF r * r >= q THEN r ELSE ISqrtFrom(q, r + 1)
IMod(z) == IF z[2] = 0 THEN IAbs(z[1]) ELSE IF z[1] = 0 THEN IAbs(z[2])
           ELSE ISqrtFrom(Norm2(z), 0)
MaxOver(S, F(_)) == MaxI(LAMBDA i : F(i), S)

(* q: squared value for the maximum and Frobenius norms, v: value for the    *)
(* one and infinity norms                                                    *)
NormOK(op, mem, a, r) ==
  LET m == VM(a.A)  n == VN(a.A)
      F == NormFull(op, mem, a)
      ent == IF m = 0 \/ n = 0 THEN {} ELSE {F[i][j] : i \in 1..m, j \in 1..n}
      rowsum(i) == SumI(LAMBDA j : IMod(F[i][j]), n)
      colsum(j) == SumI(LAMBDA i : IMod(F[i][j]), m)
  IN IF m = 0 \/ n = 0 THEN r.k = 0 /\ r.v = 0
     ELSE IF \E x \in ent : IsNaN(x) THEN r.k = 1
     ELSE IF \E x \in ent : IsInfty(x) THEN r.k = 2
     ELSE /\ r.k = 0
          /\ CASE a.norm = "M" -> r.q = MaxI(LAMBDA i : MaxI(LAMBDA j : Norm2(F[i][j]), n), m)
               [] a.norm = "F" -> r.q = SumI(LAMBDA i : SumI(LAMBDA j : Norm2(F[i][j]), n), m)
               [] a.norm = "1" -> r.v = MaxI(colsum, n)
               [] a.norm = "I" -> r.v = MaxI(rowsum, m)

InfKind(k) == CASE k = "g" -> "infg" [] k = "s" -> "infs" [] k = "h" -> "infh" [] k = "t" -> "inft"

LasetX(mem, a) ==
  LET m == VM(a.A)  n == VN(a.A)
  IN  PutMask(mem, a.A, Mk(m, n, LAMBDA i, j : IF i = j THEN a.beta ELSE a.alpha),
              LAMBDA i, j : InUplo(a.uplo, i, j))
LacpyX(mem, a) ==
  LET A == Get(mem, a.A)  m == VM(a.A)  n == VN(a.A)
      tgt == <<a.B[1], a.B[2], m, n, a.B[5], a.B[6]>>
      vis(i, j) == InUplo(a.uplo, i, j)
  IN  IF m = 0 \/ n = 0 THEN mem
      ELSE PutMask(mem, a.B, Mk(VM(a.B), VN(a.B), LAMBDA i, j :
             IF i <= m /\ j <= n THEN A[i][j] ELSE Zero),
             LAMBDA i, j : i <= m /\ j <= n /\ vis(i, j))
TransposeX(mem, a) ==
  LET A == Get(mem, a.A)  m == VM(a.A)  n == VN(a.A)
  IN  Put(mem, a.B, IF a.conj = 1 THEN CtM(A, m, n) ELSE TrM(A, m, n))
ConjugateX(mem, a) ==
  PutV(mem, a.x, TLCEval([i \in 1..VM(a.x) |-> Cj(GetV(mem, a.x)[i])]))
(* A := (a/b) A ; exact when b divides a * entries, which the programs ensure *)
LasclX(mem, a) ==
  LET A == Get(mem, a.A)  m == VM(a.A)  n == VN(a.A)
      q == a.a[1] \div a.b[1]
  IN  PutMask(mem, a.A, Mk(m, n, LAMBDA i, j : IF IsNum(A[i][j]) THEN <<q * A[i][j][1], q * A[i][j][2]>> ELSE A[i][j]),
              LAMBDA i, j : Ref(a, i, j))
HasOK(mem, a, r) ==
  LET A == Get(mem, a.A)  m == VM(a.A)  n == VN(a.A)
      ent == {A[ij[1]][ij[2]] : ij \in {ij \in (1..m) \X (1..n) : Ref(a, ij[1], ij[2])}}
  IN  /\ (r.nan = 1) <=> (\E x \in ent : IsNaN(x))
      /\ (r.inf = 1) <=> (\E x \in ent : IsInfty(x))
HasVOK(mem, a, r) ==
  LET x == GetV(mem, a.x)
  IN  /\ (r.nan = 1) <=> (\E i \in 1..VM(a.x) : IsNaN(x[i]))
      /\ (r.inf = 1) <=> (\E i \in 1..VM(a.x) : IsInfty(x[i]))
(* random fill: a pure function of the seed (which it advances by one),      *)
(* inside the stated range, using all of it                                  *)
LarnvOK(a, r) ==
  /\ r.d1 = 1 /\ r.d2 = 1 /\ r.d3 = 1
  /\ r.same = 1 /\ r.pad = 1
  /\ IF a.dist \in {4, 5} /\ r.cplx = 0 THEN TRUE
     ELSE /\ r.other = 1 /\ r.range = 1 /\ r.moved = 1
          /\ (a.n >= 100 => /\ r.neg > a.n \div 4 /\ r.pos > a.n \div 4
                            /\ r.distinct > a.n - 5
                            /\ (a.dist \in {2, 3, 4, 5} => r.big > a.n \div 4)
                            /\ (r.cplx = 1 => r.im > a.n - 5))

(* strong zero: absorbs whatever it multiplies, neutral in sums; v holds the *)
(* kind of each operation's result: "x" same as the operand, "-" its         *)
(* negation, "0" zero, "I" infinity                                          *)
StrongOK(r) ==
  r.v = <<"x", "x", "0", "I", "x", "x", "x", "-", "0", "0", "0", "I", "0", "0", "x", "x">>

(* scalars anywhere in the exponent range; k[i] says what entry i is: 0 a    *)
(* finite number, 1 NaN, 2 infinity.  All sums and norms of the vector, and  *)
(* of it laid out as a matrix, follow the kinds.                             *)
KindOf(k) == IF \E i \in 1..Len(k) : k[i] = 1 THEN 1
             ELSE IF \E i \in 1..Len(k) : k[i] = 2 THEN 2 ELSE 0
FirstOf(k, c) == CHOOSE i \in 1..Len(k) : k[i] = c /\ \A j \in 1..(i - 1) : k[j] # c
ExcNormOK(k, r) ==
  /\ \A i \in 1..Len(r.kinds) : KindOf(k) # 0 => r.kinds[i] = KindOf(k)
  /\ \A i \in 1..Len(r.nans) : (KindOf(k) = 1) <=> (r.nans[i] = 1)
  /\ r.imax = IF Len(k) = 0 THEN 0
              ELSE IF KindOf(k) # 0 THEN FirstOf(k, KindOf(k)) - 1
              ELSE (CHOOSE i \in 1..Len(k) : /\ \A j \in 1..Len(k) : r.rank[j] <= r.rank[i]
                                            /\ \A j \in 1..(i - 1) : r.rank[j] < r.rank[i]) - 1

UtilOps == {"s_exc", "strongzero", "lange", "lansy", "lanhe", "lantr", "infnorm", "laset", "lacpy", "transpose",
            "conjugate", "lascl", "hasx", "hasxv", "larnv"}
UtilAccept(e, mem, post) ==
  LET a == e.a IN
  CASE e.op \in {"lange", "lansy", "lanhe", "lantr"} -> post = mem /\ NormOK(e.op, mem, a, e.ret)
    [] e.op = "infnorm" -> NormOK(InfKind(a.kind), mem, a, e.ret) /\ post = mem
    [] e.op = "laset" -> post = LasetX(mem, a)
    [] e.op = "lacpy" -> post = LacpyX(mem, a)
    [] e.op = "transpose" -> post = TransposeX(mem, a)
    [] e.op = "conjugate" -> post = ConjugateX(mem, a)
    [] e.op = "lascl" -> post = LasclX(mem, a) /\ e.ret = 0
    [] e.op = "hasx"  -> post = mem /\ HasOK(mem, a, e.ret)
    [] e.op = "hasxv" -> post = mem /\ HasVOK(mem, a, e.ret)
    [] e.op = "s_exc" -> post = mem /\ ExcNormOK(e.x.k, e.ret)
    [] e.op = "strongzero" -> post = mem /\ StrongOK(e.ret)
    [] e.op = "larnv" -> post = mem /\ LarnvOK(a, e.ret)
=============================================================================
