-------------------------------- MODULE Rots --------------------------------
(* Sequences of plane rotations.  The i-th rotation of a sequence is         *)
(*     P(i) = [ c(i)  s(i) ; -conj(s(i))  c(i) ]                             *)
(* on rows (columns) i and i+1.  From the left, P is applied; from the       *)
(* right, P^H.  A Forward sequence starts with the last rotation, a Backward *)
(* one with the first.  The machine's step is one rotation at a time; the    *)
(* wave-front routine applies sequence after sequence.                       *)
EXTENDS Kern

RotRows(A, i, c, s, n) ==
  LET x == A[i]  y == A[i + 1]
      u == TLCEval([j \in 1..n |-> Add(Mul(c, x[j]), Mul(s, y[j]))])
      v == TLCEval([j \in 1..n |-> Sub(Mul(c, y[j]), Mul(Cj(s), x[j]))])
  IN  TLCEval([A EXCEPT ![i] = u, ![i + 1] = v])
(* rows of the transpose when acting from the right: x' = c x + conj(s) y *)
RotSeq(A, n, c, s, k, direc, right) ==
  FoldLeft(LAMBDA M, q : LET i == IF direc = "F" THEN k + 1 - q ELSE q
                         IN  RotRows(M, i, c[i], IF right THEN Cj(s[i]) ELSE s[i], n),
           A, Iota(k))
RotSequenceX(mem, a, l, cv(_), sv(_)) ==
  LET m == VM(a.A)  n == VN(a.A)
      right == a.side = "R"
      k == (IF right THEN n ELSE m) - 1
      A0 == IF right THEN TrM(Get(mem, a.A), m, n) ELSE Get(mem, a.A)
      w == IF right THEN m ELSE n
      A1 == FoldLeft(LAMBDA M, j : RotSeq(M, w, cv(j), sv(j), k, a.direc, right), A0, Iota(l))
  IN  Put(mem, a.A, IF right THEN TrM(A1, n, m) ELSE A1)
ColV(M, j, k) == TLCEval([i \in 1..k |-> M[i][j]])

RotOps == {"rot_sequence", "rot_sequence3"}
RotAccept(e, mem, post) ==
  LET a == e.a IN
  CASE e.op = "rot_sequence" ->
         /\ e.ret = 0
         /\ post = RotSequenceX(mem, a, 1, LAMBDA j : GetV(mem, a.c), LAMBDA j : GetV(mem, a.s))
    [] e.op = "rot_sequence3" ->
         LET C == Get(mem, a.C)  S == Get(mem, a.S)  k == VM(a.C)
         IN  post = RotSequenceX(mem, a, VN(a.C), LAMBDA j : ColV(C, j, k), LAMBDA j : ColV(S, j, k))
=============================================================================
