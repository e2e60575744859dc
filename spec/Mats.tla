------------------------------- MODULE Mats -------------------------------
(* Matrices as sequences of rows.  Dimensions are passed explicitly because  *)
(* an m-by-0 and a 0-by-n matrix carry no entries.                           *)
EXTENDS Scalars

Mk(m, n, F(_, _)) ==
  TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> F(i, j)])])

ZeroM(m, n) == Mk(m, n, LAMBDA i, j : Zero)
Eye(m, n)   == Mk(m, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)
TrM(A, m, n) == Mk(n, m, LAMBDA i, j : A[j][i])        \* A is m x n
CtM(A, m, n) == Mk(n, m, LAMBDA i, j : Cj(A[j][i]))
CjM(A, m, n) == Mk(m, n, LAMBDA i, j : Cj(A[i][j]))

(* op(A) for an A with m rows and n columns *)
OpM(op, A, m, n) ==
  CASE op = "N" -> A
    [] op = "T" -> TrM(A, m, n)
    [] op = "C" -> CtM(A, m, n)
    [] op = "J" -> CjM(A, m, n)

MatMul(A, B, m, n, k) ==
  LET BT == TrM(B, k, n)
  IN  Mk(m, n, LAMBDA i, j : Dot(A[i], BT[j], k))
AddM(A, B, m, n) == Mk(m, n, LAMBDA i, j : Add(A[i][j], B[i][j]))
SubM(A, B, m, n) == Mk(m, n, LAMBDA i, j : Sub(A[i][j], B[i][j]))
ScM(s, A, m, n)  == Mk(m, n, LAMBDA i, j : Mul(s, A[i][j]))
(* alpha * A + beta * B *)
AxpbyM(al, A, be, B, m, n) ==
  Mk(m, n, LAMBDA i, j : Add(Mul(al, A[i][j]), Mul(be, B[i][j])))

InUplo(uplo, i, j) ==
  CASE uplo = "G" -> TRUE
    [] uplo = "U" -> i <= j
    [] uplo = "L" -> i >= j
    [] uplo = "S" -> i < j          \* strictly upper
    [] uplo = "s" -> i > j          \* strictly lower
    [] uplo = "H" -> i <= j + 1     \* upper Hessenberg
    [] uplo = "h" -> j <= i + 1     \* lower Hessenberg

(* The full matrix that a partially referenced operand stands for. *)
HermFull(A, uplo, n) ==
  Mk(n, n, LAMBDA i, j : IF i = j THEN Re(A[i][i])
                         ELSE IF (IF uplo = "L" THEN i > j ELSE i < j)
                              THEN A[i][j] ELSE Cj(A[j][i]))
SymFull(A, uplo, n) ==
  Mk(n, n, LAMBDA i, j : IF (IF uplo = "L" THEN i >= j ELSE i <= j)
                         THEN A[i][j] ELSE A[j][i])
TriFull(A, uplo, diag, m, n) ==
  Mk(m, n, LAMBDA i, j : IF i = j THEN (IF diag = "U" THEN One ELSE A[i][i])
                         ELSE IF (IF uplo = "L" THEN i > j ELSE i < j)
                              THEN A[i][j] ELSE Zero)
SubMat(A, i0, j0, m, n) == Mk(m, n, LAMBDA i, j : A[i0 + i][j0 + j])

EqM(A, B, m, n) == \A i \in 1..m : \A j \in 1..n : A[i][j] = B[i][j]
AllNum(A, m, n) == \A i \in 1..m : \A j \in 1..n : IsNum(A[i][j])

(* a column vector (sequence) as a k x 1 matrix and back *)
ColOf(x, k) == Mk(k, 1, LAMBDA i, j : x[i])
VecOf(A, k) == TLCEval([i \in 1..k |-> A[i][1]])
MatVec(A, x, m, k) == TLCEval([i \in 1..m |-> Dot(A[i], x, k)])
=============================================================================
