-------------------------------- MODULE Blas --------------------------------
(* Levels 1, 2 and 3: the documented formula of every routine as a function  *)
(* from the memory before the call to the memory after it.                   *)
EXTENDS Mem

Has(a, k) == k \in DOMAIN a
Beta(a) == IF Has(a, "beta") THEN a.beta ELSE Zero
(* an omitted beta means: the output operand is not read *)
Scaled(a, C, m, n) == IF Has(a, "beta") THEN ScM(a.beta, C, m, n) ELSE ZeroM(m, n)
ScaledV(a, y, n) == IF Has(a, "beta") THEN [i \in 1..n |-> Mul(a.beta, y[i])]
                    ELSE [i \in 1..n |-> Zero]

(* ------------------------------ level 3 ------------------------------ *)
GemmX(mem, a) ==
  LET m == VM(a.C)  n == VN(a.C)
      k == IF a.ta = "N" THEN VN(a.A) ELSE VM(a.A)
      A == OpM(a.ta, Get(mem, a.A), VM(a.A), VN(a.A))
      B == OpM(a.tb, Get(mem, a.B), VM(a.B), VN(a.B))
      R == AddM(ScM(a.alpha, MatMul(A, B, m, n, k), m, n),
                Scaled(a, Get(mem, a.C), m, n), m, n)
  IN  Put(mem, a.C, R)

SideMulX(mem, a, F) ==       \* F: full matrix standing for A
  LET m == VM(a.C)  n == VN(a.C)
      B == Get(mem, a.B)
      P == IF a.side = "L" THEN MatMul(F, B, m, n, m) ELSE MatMul(B, F, m, n, n)
      R == AddM(ScM(a.alpha, P, m, n), Scaled(a, Get(mem, a.C), m, n), m, n)
  IN  Put(mem, a.C, R)
HemmX(mem, a) == SideMulX(mem, a, HermFull(Get(mem, a.A), a.uplo, VM(a.A)))
SymmX(mem, a) == SideMulX(mem, a, SymFull(Get(mem, a.A), a.uplo, VM(a.A)))

(* rank-k updates write the triangle uplo ("G": whole matrix, upper read) *)
HerkX(mem, a) ==
  LET n == VM(a.C)
      k == IF a.trans = "N" THEN VN(a.A) ELSE VM(a.A)
      A == OpM(a.trans, Get(mem, a.A), VM(a.A), VN(a.A))
      P == MatMul(A, CtM(A, n, k), n, n, k)
      C == IF Has(a, "beta") THEN HermFull(Get(mem, a.C), a.uplo, n) ELSE ZeroM(n, n)
  IN  PutU(mem, a.C, AxpbyM(a.alpha, P, Beta(a), C, n, n), a.uplo)
SyrkX(mem, a) ==
  LET n == VM(a.C)
      k == IF a.trans = "N" THEN VN(a.A) ELSE VM(a.A)
      A == OpM(a.trans, Get(mem, a.A), VM(a.A), VN(a.A))
      P == MatMul(A, TrM(A, n, k), n, n, k)
      C == IF Has(a, "beta") THEN SymFull(Get(mem, a.C), a.uplo, n) ELSE ZeroM(n, n)
  IN  PutU(mem, a.C, AxpbyM(a.alpha, P, Beta(a), C, n, n), a.uplo)
Her2kX(mem, a) ==
  LET n == VM(a.C)
      k == IF a.trans = "N" THEN VN(a.A) ELSE VM(a.A)
      A == OpM(a.trans, Get(mem, a.A), VM(a.A), VN(a.A))
      B == OpM(a.trans, Get(mem, a.B), VM(a.B), VN(a.B))
      P == AddM(ScM(a.alpha, MatMul(A, CtM(B, n, k), n, n, k), n, n),
                ScM(Cj(a.alpha), MatMul(B, CtM(A, n, k), n, n, k), n, n), n, n)
      C == IF Has(a, "beta") THEN HermFull(Get(mem, a.C), a.uplo, n) ELSE ZeroM(n, n)
  IN  PutU(mem, a.C, AxpbyM(One, P, Beta(a), C, n, n), a.uplo)
Syr2kX(mem, a) ==
  LET n == VM(a.C)
      k == IF a.trans = "N" THEN VN(a.A) ELSE VM(a.A)
      A == OpM(a.trans, Get(mem, a.A), VM(a.A), VN(a.A))
      B == OpM(a.trans, Get(mem, a.B), VM(a.B), VN(a.B))
      P == AddM(MatMul(A, TrM(B, n, k), n, n, k), MatMul(B, TrM(A, n, k), n, n, k), n, n)
      C == IF Has(a, "beta") THEN SymFull(Get(mem, a.C), a.uplo, n) ELSE ZeroM(n, n)
  IN  PutU(mem, a.C, AxpbyM(a.alpha, P, Beta(a), C, n, n), a.uplo)

TriOp(mem, a) ==
  OpM(a.trans, TriFull(Get(mem, a.A), a.uplo, a.diag, VM(a.A), VM(a.A)), VM(a.A), VM(a.A))
SideProd(side, F, B, m, n) ==
  IF side = "L" THEN MatMul(F, B, m, n, m) ELSE MatMul(B, F, m, n, n)
TrmmX(mem, a) ==
  LET m == VM(a.B)  n == VN(a.B)
  IN  Put(mem, a.B, ScM(a.alpha, SideProd(a.side, TriOp(mem, a), Get(mem, a.B), m, n), m, n))
(* a solve is accepted through its defining equation, not by computing it *)
TrsmOK(mem, post, a) ==
  LET m == VM(a.B)  n == VN(a.B)
      X == Get(post, a.B)
  IN  /\ Frame(mem, post, a.B)
      /\ AllNum(X, m, n)
      /\ EqM(SideProd(a.side, TriOp(mem, a), X, m, n), ScM(a.alpha, Get(mem, a.B), m, n), m, n)

(* ------------------------------ level 2 ------------------------------ *)
MvX(mem, a, F, m, k) ==      \* y := alpha F x + beta y,  F is m x k
  LET x == GetV(mem, a.x)  y == GetV(mem, a.y)
      p == MatVec(F, x, m, k)
      s == ScaledV(a, y, m)
  IN  PutV(mem, a.y, TLCEval([i \in 1..m |-> Add(Mul(a.alpha, p[i]), s[i])]))
GemvX(mem, a) ==
  LET A == OpM(a.trans, Get(mem, a.A), VM(a.A), VN(a.A))
      flip == a.trans \in {"T", "C"}
  IN  MvX(mem, a, A, IF flip THEN VN(a.A) ELSE VM(a.A), IF flip THEN VM(a.A) ELSE VN(a.A))
HemvX(mem, a) == MvX(mem, a, HermFull(Get(mem, a.A), a.uplo, VM(a.A)), VM(a.A), VM(a.A))
SymvX(mem, a) == MvX(mem, a, SymFull(Get(mem, a.A), a.uplo, VM(a.A)), VM(a.A), VM(a.A))
GerX(mem, a, conjugate) ==
  LET m == VM(a.A)  n == VN(a.A)
      x == GetV(mem, a.x)  y == GetV(mem, a.y)  A == Get(mem, a.A)
  IN  Put(mem, a.A, Mk(m, n, LAMBDA i, j :
        Add(A[i][j], Mul(a.alpha, Mul(x[i], IF conjugate THEN Cj(y[j]) ELSE y[j])))))
HerX(mem, a) ==
  LET n == VM(a.A)  x == GetV(mem, a.x)  A == HermFull(Get(mem, a.A), a.uplo, n)
  IN  PutU(mem, a.A, Mk(n, n, LAMBDA i, j :
        Add(A[i][j], Mul(a.alpha, Mul(x[i], Cj(x[j]))))), a.uplo)
SyrX(mem, a) ==
  LET n == VM(a.A)  x == GetV(mem, a.x)  A == SymFull(Get(mem, a.A), a.uplo, n)
  IN  PutU(mem, a.A, Mk(n, n, LAMBDA i, j :
        Add(A[i][j], Mul(a.alpha, Mul(x[i], x[j])))), a.uplo)
Her2X(mem, a) ==
  LET n == VM(a.A)  x == GetV(mem, a.x)  y == GetV(mem, a.y)
      A == HermFull(Get(mem, a.A), a.uplo, n)
  IN  PutU(mem, a.A, Mk(n, n, LAMBDA i, j :
        Add(A[i][j], Add(Mul(a.alpha, Mul(x[i], Cj(y[j]))),
                         Mul(Cj(a.alpha), Mul(y[i], Cj(x[j])))))), a.uplo)
Syr2X(mem, a) ==
  LET n == VM(a.A)  x == GetV(mem, a.x)  y == GetV(mem, a.y)
      A == SymFull(Get(mem, a.A), a.uplo, n)
  IN  PutU(mem, a.A, Mk(n, n, LAMBDA i, j :
        Add(A[i][j], Mul(a.alpha, Add(Mul(x[i], y[j]), Mul(y[i], x[j]))))), a.uplo)
TrmvX(mem, a) ==
  PutV(mem, a.x, MatVec(TriOp(mem, a), GetV(mem, a.x), VM(a.A), VM(a.A)))
TrsvOK(mem, post, a) ==
  LET n == VM(a.A)  X == GetV(post, a.x)  b == GetV(mem, a.x)
      p == MatVec(TriOp(mem, a), X, n, n)
  IN  /\ Frame(mem, post, a.x)
      /\ \A i \in 1..n : IsNum(X[i]) /\ p[i] = b[i]

(* ------------------------------ level 1 ------------------------------ *)
CopyX(mem, a) ==    \* y may be longer than x; then only its head is written
  LET x == GetV(mem, a.x)  y == GetV(mem, a.y)
  IN  PutV(mem, a.y, TLCEval([i \in 1..VM(a.y) |-> IF i <= VM(a.x) THEN x[i] ELSE y[i]]))
AxpyX(mem, a) ==
  LET x == GetV(mem, a.x)  y == GetV(mem, a.y)
  IN  PutV(mem, a.y, TLCEval([i \in 1..VM(a.y) |->
        IF i <= VM(a.x) THEN Add(y[i], Mul(a.alpha, x[i])) ELSE y[i]]))
SwapX(mem, a) ==
  LET x == GetV(mem, a.x)  y == GetV(mem, a.y) IN PutV(PutV(mem, a.x, y), a.y, x)
ScalX(mem, a) ==
  LET x == GetV(mem, a.x)  al == IF Has(a, "ralpha") THEN a.ralpha ELSE a.alpha
  IN  PutV(mem, a.x, TLCEval([i \in 1..VM(a.x) |-> Mul(al, x[i])]))
RotX(mem, a) ==
  LET x == GetV(mem, a.x)  y == GetV(mem, a.y)  n == VM(a.x)
  IN  PutV(PutV(mem, a.x, TLCEval([i \in 1..n |-> Add(Mul(a.c, x[i]), Mul(a.s, y[i]))])),
           a.y, TLCEval([i \in 1..n |-> Sub(Mul(a.c, y[i]), Mul(Cj(a.s), x[i]))]))
RotmX(mem, a) ==
  LET x == GetV(mem, a.x)  y == GetV(mem, a.y)  n == VM(a.x)
      h11 == IF a.flag \in {-1, 1} THEN a.h11 ELSE One
      h22 == IF a.flag \in {-1, 1} THEN a.h22 ELSE One
      h12 == CASE a.flag \in {-1, 0} -> a.h12 [] a.flag = 1 -> One [] OTHER -> Zero
      h21 == CASE a.flag \in {-1, 0} -> a.h21 [] a.flag = 1 -> Neg(One) [] OTHER -> Zero
  IN  PutV(PutV(mem, a.x, TLCEval([i \in 1..n |-> Add(Mul(h11, x[i]), Mul(h12, y[i]))])),
           a.y, TLCEval([i \in 1..n |-> Add(Mul(h21, x[i]), Mul(h22, y[i]))]))
DotX(mem, a, conjugate) ==
  LET x == GetV(mem, a.x)  y == GetV(mem, a.y)
  IN  SumS(LAMBDA i : Mul(IF conjugate THEN Cj(x[i]) ELSE x[i], y[i]), VM(a.x))
AsumX(mem, a) == LET x == GetV(mem, a.x) IN <<SumI(LAMBDA i : Abs1(x[i]), VM(a.x)), 0>>
SumSq(mem, v) == LET x == GetV(mem, v) IN SumI(LAMBDA i : Norm2(x[i]), VM(v))
(* a sum of magnitudes with exceptional terms: NaN wins, then infinity *)
SumCode(mem, v) ==
  LET x == GetV(mem, v)
  IN  IF \E i \in 1..VM(v) : Len(x[i]) = 3 /\ x[i][3] = 1 THEN <<0, 0, 1>> ELSE <<0, 0, 2>>
DotOK(mem, a, conjugate, r) ==
  IF NumV(mem, a.x) /\ NumV(mem, a.y) THEN r = DotX(mem, a, conjugate) ELSE r = <<0, 0, 1>>
(* first position of a largest entry, Mag giving the magnitude *)
FirstMax(x, n, Mag(_)) ==
  IF n = 0 THEN 0
  ELSE (CHOOSE i \in 1..n : /\ \A j \in 1..n : Mag(x[j]) <= Mag(x[i])
                            /\ \A j \in 1..(i - 1) : Mag(x[j]) < Mag(x[i])) - 1
HasCode(x, n, k) == \E i \in 1..n : Len(x[i]) = 3 /\ x[i][3] \in k
FirstCode(x, n, k) == (CHOOSE i \in 1..n : Len(x[i]) = 3 /\ x[i][3] \in k
                         /\ \A j \in 1..(i - 1) : ~(Len(x[j]) = 3 /\ x[j][3] \in k)) - 1
IamaxR(mem, a) ==
  LET x == GetV(mem, a.x)  n == VM(a.x)
      nan == a.kind \in {"def", "ec", "optec", "abs"}
  IN  IF n = 0 THEN 0
      ELSE IF nan /\ HasCode(x, n, {1}) THEN FirstCode(x, n, {1})
      ELSE IF HasCode(x, n, {2, 3}) THEN FirstCode(x, n, {2, 3})
      ELSE IF a.kind = "abs" THEN FirstMax(x, n, Norm2) ELSE FirstMax(x, n, Abs1)
=============================================================================
