------------------------------- MODULE House -------------------------------
(* Elementary reflectors H = I - tau v v^H, block reflectors                 *)
(* H = I - V T V^H, and unitary matrices stored as a list of reflectors.     *)
(* Reflectors act one at a time: the meaning of every routine below is the   *)
(* sequence of single reflectors it stands for.                              *)
EXTENDS Rots

(* C - tau v (v^H C)  or  C - tau (C v) v^H;  v is a full vector *)
Reflect(C, m, n, side, v, tau) ==
  IF side = "L" THEN
    LET w == TLCEval([j \in 1..n |-> SumS(LAMBDA i : Mul(Cj(v[i]), C[i][j]), m)])
    IN  Mk(m, n, LAMBDA i, j : Sub(C[i][j], Mul(tau, Mul(v[i], w[j]))))
  ELSE
    LET w == TLCEval([i \in 1..m |-> SumS(LAMBDA j : Mul(C[i][j], v[j]), n)])
    IN  Mk(m, n, LAMBDA i, j : Sub(C[i][j], Mul(tau, Mul(w[i], Cj(v[j])))))

(* the i-th vector of an array of k reflectors of length q: stored column-   *)
(* wise as v, rowwise as v^H; one and zeros are implied, never read          *)
ReflVec(V, direc, storev, i, q, k) ==
  LET E(p) == IF storev = "C" THEN V[p][i] ELSE Cj(V[i][p])
      u == IF direc = "F" THEN i ELSE q - k + i
  IN  TLCEval([p \in 1..q |->
        IF p = u THEN One
        ELSE IF (direc = "F") = (p > u) THEN E(p) ELSE Zero])

(* list of <<index, conjugated>> whose product, left to right, is op(Q) *)
QFactors(direc, storev, trans, k) ==
  LET up == [i \in 1..k |-> i]  dn == [i \in 1..k |-> k + 1 - i]
      q0 == IF (direc = "F") = (storev = "C") THEN up ELSE dn
      c0 == storev = "R"
      tr == trans # "N"
  IN  TLCEval([i \in 1..k |-> <<IF tr THEN q0[k + 1 - i] ELSE q0[i], c0 # tr>>])
ApplyFactors(C, m, n, side, fs, V, tau, direc, storev, k) ==
  LET q == IF side = "L" THEN m ELSE n
  IN  FoldLeft(LAMBDA X, s :
                 LET f == fs[IF side = "L" THEN k + 1 - s ELSE s]
                 IN  Reflect(X, m, n, side, ReflVec(V, direc, storev, f[1], q, k),
                             IF f[2] THEN Cj(tau[f[1]]) ELSE tau[f[1]]),
               C, Iota(k))
QMulX(mem, a, direc, storev) ==
  LET m == VM(a.C)  n == VN(a.C)  k == VM(a.tau)
  IN  Put(mem, a.C, ApplyFactors(Get(mem, a.C), m, n, a.side, QFactors(direc, storev, a.trans, k),
                                 Get(mem, a.V), GetV(mem, a.tau), direc, storev, k))
(* one reflector split into its unit entry and the rest *)
LarfX(mem, a) ==
  LET m1 == VM(a.C1)  n1 == VN(a.C1)  x == GetV(mem, a.x)  c0 == GetV(mem, a.C0)
      C1 == Get(mem, a.C1)  left == a.side = "L"
      m == IF left THEN m1 + 1 ELSE m1  n == IF left THEN n1 ELSE n1 + 1
      C == Mk(m, n, LAMBDA i, j : IF left THEN (IF i = 1 THEN c0[j] ELSE C1[i - 1][j])
                                  ELSE (IF j = 1 THEN c0[i] ELSE C1[i][j - 1]))
      v == TLCEval([p \in 1..(IF left THEN m ELSE n) |->
             IF p = 1 THEN One ELSE IF a.storev = "C" THEN x[p - 1] ELSE Cj(x[p - 1])])
      R == Reflect(C, m, n, a.side, v, a.tau)
      k == IF left THEN n ELSE m
  IN  Put(PutV(mem, a.C0, TLCEval([p \in 1..k |-> IF left THEN R[1][p] ELSE R[p][1]])), a.C1,
          Mk(m1, n1, LAMBDA i, j : IF left THEN R[i + 1][j] ELSE R[i][j + 1]))
LarfvX(mem, a) ==
  LET m == VM(a.C)  n == VN(a.C)  q == IF a.side = "L" THEN m ELSE n
      x == GetV(mem, a.v)  u == IF a.direc = "F" THEN 1 ELSE q
      v == TLCEval([p \in 1..q |-> IF p = u THEN One ELSE IF a.storev = "C" THEN x[p] ELSE Cj(x[p])])
  IN  Put(mem, a.C, Reflect(Get(mem, a.C), m, n, a.side, v, a.tau))
(* the q x k matrix of full reflector vectors *)
VFull(V, direc, storev, q, k) ==
  LET cols == TLCEval([i \in 1..k |-> ReflVec(V, direc, storev, i, q, k)])
  IN  Mk(q, k, LAMBDA p, i : cols[i][p])
(* C - V T (V^H C), with T one triangle of the array *)
LarfbX(mem, a) ==
  LET m == VM(a.C)  n == VN(a.C)  k == VM(a.T)  left == a.side = "L"
      q == IF left THEN m ELSE n
      V == VFull(Get(mem, a.V), a.direc, a.storev, q, k)
      T0 == TriFull(Get(mem, a.T), IF a.direc = "F" THEN "U" ELSE "L", "N", k, k)
      T == IF a.trans = "N" THEN T0 ELSE CtM(T0, k, k)
      C == Get(mem, a.C)
      VH == CtM(V, q, k)
      W == IF left THEN MatMul(V, MatMul(T, MatMul(VH, C, k, n, q), k, n, k), q, n, k)
           ELSE MatMul(MatMul(MatMul(C, V, m, k, q), T, m, k, k), VH, m, q, k)
  IN  Put(mem, a.C, SubM(C, W, m, n))
(* T is right exactly when I - V T V^H is the product of the reflectors *)
LarftOK(mem, post, a) ==
  LET k == VM(a.tau)  q == IF a.storev = "C" THEN VM(a.V) ELSE VN(a.V)
      Vm == Get(mem, a.V)
      up == IF a.direc = "F" THEN "U" ELSE "L"
      V == VFull(Vm, a.direc, a.storev, q, k)
      T == TriFull(Get(post, a.T), up, "N", k, k)
      fs == TLCEval([i \in 1..k |-> <<IF a.direc = "F" THEN i ELSE k + 1 - i, FALSE>>])
      H == ApplyFactors(Eye(q, q), q, q, "L", fs, Vm, GetV(mem, a.tau), a.direc, a.storev, k)
      B == SubM(Eye(q, q), MatMul(V, MatMul(T, CtM(V, q, k), k, q, k), q, q, k), q, q)
  IN  /\ FrameMask(mem, post, a.T, LAMBDA i, j : i <= k /\ j <= k /\ InUplo(up, i, j))
      /\ AllNum(T, k, k)
      /\ EqM(H, B, q, q)
(* reflectors i = ilo+1 .. ihi-1 (1-based) act on rows or columns ilo+2..ihi *)
UnmhrX(mem, a) ==
  LET sub(v, i, j, m, n) == <<v[1], v[2] + i * v[5] + j * v[6], m, n, v[5], v[6]>>
      k == IF a.ihi > a.ilo THEN a.ihi - a.ilo - 1 ELSE 0
      b == [side |-> a.side, trans |-> a.trans,
            V |-> sub(a.V, a.ilo + 1, a.ilo, k, k),
            tau |-> <<a.tau[1], a.tau[2] + a.ilo * a.tau[5], k, 1, a.tau[5], 0>>,
            C |-> IF a.side = "L" THEN sub(a.C, a.ilo + 1, 0, k, VN(a.C)) ELSE sub(a.C, 0, a.ilo + 1, VM(a.C), k)]
  IN  IF k = 0 THEN mem ELSE QMulX(mem, b, "F", "C")

QMulOps == {"unm2r", "unm2l", "unml2", "unmr2", "unmqr", "unmql", "unmlq", "unmrq", "unmq", "unmq_level2", "householder_q_mul"}
HouseOps == QMulOps \cup {"larf", "larfv", "larft", "larfb", "unmhr"}
QKind(e) ==
  CASE e.op \in {"unm2r", "unmqr"} -> <<"F", "C">>
    [] e.op \in {"unm2l", "unmql"} -> <<"B", "C">>
    [] e.op \in {"unml2", "unmlq"} -> <<"F", "R">>
    [] e.op \in {"unmr2", "unmrq"} -> <<"B", "R">>
    [] OTHER -> <<e.a.direc, e.a.storev>>
HouseAccept(e, mem, post) ==
  LET a == e.a IN
  CASE e.op \in QMulOps -> e.ret = 0 /\ post = QMulX(mem, a, QKind(e)[1], QKind(e)[2])
    [] e.op = "larf" -> post = LarfX(mem, a)
    [] e.op = "larfv" -> post = LarfvX(mem, a)
    [] e.op = "larft" -> e.ret = 0 /\ LarftOK(mem, post, a)
    [] e.op = "larfb" -> e.ret = 0 /\ post = LarfbX(mem, a)
    [] e.op = "unmhr" -> e.ret = 0 /\ post = UnmhrX(mem, a)
=============================================================================
