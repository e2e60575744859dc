-------------------------------- MODULE Fac --------------------------------
(* Triangular factorizations and inverses on dyadic data: entries are        *)
(* multiples of 1/den, and every intermediate of a correct algorithm is too. *)
(* -777 is the driver's code for a reported internal error.                  *)
EXTENDS Ortho, FiniteSets, FiniteSetsExt

Raised == -777
IDivC(z, d) == <<z[1] \div d, z[2] \div d>>            \* exact divisions only
MulDiv(a, b, d) == IDivC(Mul(a, b), d)
DI(d, n) == Mk(n, n, LAMBDA i, j : IF i = j THEN <<d, 0>> ELSE Zero)
Unscale(A, m, n, d) == Mk(m, n, LAMBDA i, j : IDivC(A[i][j], d))

(* determinants modulo a number larger than any minor of the test data       *)
MD == 32749
ModC(z) == <<z[1] % MD, z[2] % MD>>
RECURSIVE Det(_, _, _, _)
Det(A, S, c, j) ==
  IF c > j THEN One
  ELSE ModC(FoldSet(LAMBDA t, acc :
         IF A[t][c] = Zero THEN acc
         ELSE LET x == ModC(Mul(ModC(A[t][c]), Det(A, S \ {t}, c + 1, j)))
              IN  IF Cardinality({u \in S : u < t}) % 2 = 0 THEN ModC(Add(acc, x)) ELSE ModC(Sub(acc, x)),
         Zero, S))
(* the first j columns of the m-row integer matrix A are independent         *)
Indep(A, m, j) == \E S \in kSubset(j, 1..m) : Det(A, S, 1, j) # Zero

Perm(M, pv, k) ==
  FoldLeft(LAMBDA X, i : LET q == pv[i][1] + 1 IN [X EXCEPT ![i] = X[q], ![q] = X[i]], M, Iota(k))
LPart(X, m, k, d) == Mk(m, k, LAMBDA i, j : IF i = j THEN <<d, 0>> ELSE IF i > j THEN X[i][j] ELSE Zero)
UPart(X, k, n) == Mk(k, n, LAMBDA i, j : IF i <= j THEN X[i][j] ELSE Zero)
First(v, k) == <<v[1], v[2], k, 1, v[5], 0>>

(* P A = L U, every pivot largest in its column by one of the two measures,  *)
(* and the code tells the first column that depends on the ones before it    *)
LuOK(e, mem, post) ==
  LET a == e.a  d == e.den
      m == VM(a.A)  n == VN(a.A)  k == Min2(m, n)
      A0 == Get(mem, a.A)  X == Get(post, a.A)
      pv == GetV(post, First(a.piv, k))
      AI == Unscale(A0, m, n, d)
      U == UPart(X, k, n)  L == LPart(X, m, k, d)
      below == {ij \in (1..m) \X (1..k) : ij[1] > ij[2]}
  IN  /\ Frame2(mem, post, a.A, First(a.piv, k))
      /\ IF e.ret = 0 THEN
           /\ AllNum(X, m, n)
           /\ \A i \in 1..k : pv[i][1] >= i - 1 /\ pv[i][1] < m /\ U[i][i] # Zero
           /\ EqM(MatMul(L, U, m, n, k), ScM(<<d, 0>>, Perm(A0, pv, k), m, n), m, n)
           /\ \/ \A ij \in below : Norm2(X[ij[1]][ij[2]]) <= d * d
              \/ \A ij \in below : Abs1(Mul(X[ij[1]][ij[2]], U[ij[2]][ij[2]])) <= d * Abs1(U[ij[2]][ij[2]])
           /\ Indep(AI, m, k)
         ELSE /\ e.ret \in 1..k /\ Indep(AI, m, e.ret - 1) /\ ~Indep(AI, m, e.ret)

(* from the factors in A: (L U) X = P; singular exactly when U has a zero    *)
(* diagonal entry, and then one such position is named                       *)
GetriOK(e, mem, post) ==
  LET a == e.a  d == e.den  n == VM(a.A)
      A0 == Get(mem, a.A)  X == Get(post, a.A)
      pv == IF a.alg \in {"D", "C"} THEN GetV(mem, a.piv) ELSE TLCEval([i \in 1..n |-> <<i - 1, 0>>])
      LU == Unscale(MatMul(LPart(A0, n, n, d), UPart(A0, n, n), n, n, n), n, n, d)
      zeros == {i \in 1..n : A0[i][i] = Zero}
  IN  /\ Frame(mem, post, a.A)
      /\ IF zeros = {} THEN
           /\ e.ret = 0 /\ AllNum(X, n, n)
           /\ EqM(MatMul(LU, X, n, n, n), Perm(DI(d * d, n), pv, n), n, n)
         ELSE e.ret \in zeros \cup {Raised}

TrtriOK(e, mem, post) ==
  LET a == e.a  d == e.den  n == VM(a.A)
      A0 == Get(mem, a.A)  X == Get(post, a.A)
      ref(i, j) == InUplo(a.uplo, i, j) /\ (i # j \/ a.diag = "N")
      F(M) == Mk(n, n, LAMBDA i, j : IF ~InUplo(a.uplo, i, j) THEN Zero
                                     ELSE IF i = j /\ a.diag = "U" THEN <<d, 0>> ELSE M[i][j])
      zeros == IF a.diag = "U" THEN {} ELSE {i \in 1..n : A0[i][i] = Zero}
  IN  /\ FrameMask(mem, post, a.A, ref)
      /\ IF zeros = {} THEN
           e.ret = 0 /\ AllNum(F(X), n, n) /\ EqM(MatMul(F(A0), F(X), n, n, n), DI(d * d, n), n, n)
         ELSE e.ret = (IF a.ec = 1 THEN Raised ELSE CHOOSE i \in zeros : \A j \in zeros : i <= j)

(* ---- Cholesky: the factor with positive diagonal is unique, so it is       *)
(* computed here, column by column, with exact integer square roots          *)
ISqrt(x) == CHOOSE s \in 0..x : s * s = x
Chol(H, n) ==
  FoldLeft(LAMBDA st, j :
    IF st.info # 0 THEN st
    ELSE LET L == st.L
             dj == FoldLeft(LAMBDA acc, k : acc - Norm2(L[j][k]), H[j][j][1], Iota(j - 1))
         IN  IF dj <= 0 THEN [st EXCEPT !.info = j]
             ELSE LET s == ISqrt(dj) IN
                  [st EXCEPT !.L = TLCEval([i \in 1..n |-> TLCEval([c \in 1..n |->
                     IF c # j \/ i < j THEN L[i][c]
                     ELSE IF i = j THEN <<s, 0>>
                     ELSE IDivC(FoldLeft(LAMBDA acc, k : Sub(acc, Mul(L[i][k], Cj(L[j][k]))), H[i][j], Iota(j - 1)), s)])])],
    [L |-> ZeroM(n, n), info |-> 0], Iota(n))
Band(a, n) == IF "kd" \in DOMAIN a THEN a.kd ELSE n
InBand(a, n, i, j) == InUplo(a.uplo, i, j) /\ IAbs(i - j) <= Band(a, n)
HermIn(a, A, n) ==
  LET B == Mk(n, n, LAMBDA i, j : IF InBand(a, n, i, j) THEN A[i][j] ELSE Zero) IN HermFull(B, a.uplo, n)
CholOK(e, mem, post, codes(_)) ==
  LET a == e.a  n == VM(a.A)
      c == Chol(HermIn(a, Get(mem, a.A), n), n)
      F == IF a.uplo = "L" THEN c.L ELSE CtM(c.L, n, n)
  IN  IF c.info = 0 THEN e.ret = 0 /\ post = PutMask(mem, a.A, F, LAMBDA i, j : InBand(a, n, i, j))
      ELSE /\ e.ret \in codes(c.info)
           /\ FrameMask(mem, post, a.A, LAMBDA i, j : InBand(a, n, i, j))
PotrsOK(mem, post, a) ==
  LET n == VM(a.A)  q == VN(a.B)
      F == TriFull(Get(mem, a.A), a.uplo, "N", n, n)
      X == Get(post, a.B)
      G == CtM(F, n, n)
      Y == IF a.uplo = "L" THEN MatMul(F, MatMul(G, X, n, q, n), n, q, n) ELSE MatMul(G, MatMul(F, X, n, q, n), n, q, n)
  IN  Frame(mem, post, a.B) /\ AllNum(X, n, q) /\ EqM(Y, Get(mem, a.B), n, q)
PotriOK(e, mem, post) ==
  LET a == e.a  d == e.den  n == VM(a.A)
      H == HermFull(Get(mem, a.A), a.uplo, n)
      X == HermFull(Get(post, a.A), a.uplo, n)
  IN  /\ FrameMask(mem, post, a.A, LAMBDA i, j : InUplo(a.uplo, i, j))
      /\ IF Chol(Unscale(H, n, n, d), n).info # 0 THEN e.ret = Raised
         ELSE /\ e.ret = 0 /\ AllNum(X, n, n)
              /\ \A i \in 1..n : Get(post, a.A)[i][i][2] = 0
              /\ EqM(MatMul(Unscale(H, n, n, d), X, n, n, n), DI(d, n), n, n)
(* L D L^H of a tridiagonal matrix                                           *)
PttrfOK(e, mem, post) ==
  LET a == e.a  den == e.den  n == VM(a.D)
      D0 == GetV(mem, a.D)  E0 == GetV(mem, a.E)
      step(st, i) ==
        IF st.info # 0 THEN st
        ELSE LET di == st.d[i][1] IN
             IF di <= 0 THEN [st EXCEPT !.info = i]
             ELSE IF i = n THEN st
             ELSE [st EXCEPT !.e[i] = IDivC(Mul(<<den, 0>>, E0[i]), di),
                             !.d[i + 1] = <<@[1] - (Norm2(E0[i]) \div di), @[2]>>]
      r == FoldLeft(step, [d |-> D0, e |-> E0, info |-> 0], Iota(n))
  IN  IF r.info = 0 THEN e.ret = 0 /\ post = PutV(PutV(mem, a.D, r.d), a.E, r.e)
      ELSE e.ret = (IF a.ec = 1 THEN Raised ELSE r.info) /\ Frame2(mem, post, a.D, a.E)

FacOps == {"getrf", "getri", "trtri", "potrf", "potrs", "potri", "pbtrf", "pttrf"}
FacAccept(e, mem, post) ==
  LET a == e.a IN
  CASE e.op = "getrf" -> LuOK(e, mem, post)
    [] e.op = "getri" -> GetriOK(e, mem, post)
    [] e.op = "trtri" -> TrtriOK(e, mem, post)
    [] e.op = "potrf" -> CholOK(e, mem, post, LAMBDA i : IF a.alg = "potrf2n" THEN {i} ELSE {i, Raised})
    [] e.op = "pbtrf" -> CholOK(e, mem, post, LAMBDA i : {Raised})
    [] e.op = "potrs" -> e.ret = 0 /\ PotrsOK(mem, post, a)
    [] e.op = "potri" -> PotriOK(e, mem, post)
    [] e.op = "pttrf" -> PttrfOK(e, mem, post)
=============================================================================
