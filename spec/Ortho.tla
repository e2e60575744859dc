------------------------------- MODULE Ortho -------------------------------
(* Explicitly generated unitary factors: the first (forward) or last         *)
(* (backward) columns or rows of the product of the stored reflectors.       *)
EXTENDS House

SubV(v, i, j, m, n) == <<v[1], v[2] + i * v[5] + j * v[6], m, n, v[5], v[6]>>
UngX(mem, a, direc, storev) ==
  LET m == VM(a.A)  n == VN(a.A)  k == VM(a.tau)
      col == storev = "C"
      V == IF k = 0 THEN <<>>
           ELSE Get(mem, IF col THEN SubV(a.A, 0, IF direc = "F" THEN 0 ELSE n - k, m, k)
                         ELSE SubV(a.A, IF direc = "F" THEN 0 ELSE m - k, 0, k, n))
      E == Mk(m, n, LAMBDA i, j : IF j - i = (IF direc = "F" THEN 0 ELSE n - m) THEN One ELSE Zero)
  IN  Put(mem, a.A, ApplyFactors(E, m, n, IF col THEN "L" ELSE "R", QFactors(direc, storev, "N", k),
                                 V, GetV(mem, a.tau), direc, storev, k))
(* reflectors [e_i; W(n..,i)]: the strict lower triangle on top is not part  *)
(* of the result                                                             *)
TrgeUngOK(mem, post, a) ==
  LET n == VM(a.tau)  q == VM(a.A)  k == VN(a.A)
      W == Get(mem, a.A)  tau == GetV(mem, a.tau)
      vec(i) == TLCEval([p \in 1..q |-> IF p = i THEN One ELSE IF p > n THEN W[p][i] ELSE Zero])
      E == Mk(q, k, LAMBDA i, j : IF i = j THEN One ELSE Zero)
      Q == FoldLeft(LAMBDA X, s : Reflect(X, q, k, "L", vec(n + 1 - s), tau[n + 1 - s]), E, Iota(n))
  IN  post = Put(mem, a.A, Mk(q, k, LAMBDA i, j : IF i <= n /\ j <= n /\ i > j THEN W[i][j] ELSE Q[i][j]))

UngOps == {"ung2r", "ung2l", "ungl2", "ungr2", "ungqr", "ungql", "unglq", "ungrq", "ungq", "ungq_level2", "gen_householder_q"}
OrthoOps == UngOps \cup {"trge_ung2r"}
UKind(e) ==
  CASE e.op \in {"ung2r", "ungqr"} -> <<"F", "C">>
    [] e.op \in {"ung2l", "ungql"} -> <<"B", "C">>
    [] e.op \in {"ungl2", "unglq"} -> <<"F", "R">>
    [] e.op \in {"ungr2", "ungrq"} -> <<"B", "R">>
    [] OTHER -> <<e.a.direc, e.a.storev>>
OrthoAccept(e, mem, post) ==
  IF e.op = "trge_ung2r" THEN TrgeUngOK(mem, post, e.a)
  ELSE e.ret = 0 /\ post = UngX(mem, e.a, UKind(e)[1], UKind(e)[2])
=============================================================================
