-------------------------------- MODULE Mem --------------------------------
(* The memory of a caller: a function from buffer names to sequences of      *)
(* scalars.  A view <<buf, off, m, n, rs, cs>> designates positions          *)
(* off + i*rs + j*cs (0-based) of one buffer; vectors have n = 1, cs = 0.    *)
(* Views are how every operand is passed, so "nothing else changes" is       *)
(* equality of whole memories.                                               *)
EXTENDS Mats

VB(v) == v[1]
VM(v) == v[3]
VN(v) == v[4]
Pos(v, i, j) == v[2] + 1 + (i - 1) * v[5] + (j - 1) * v[6]

Get(mem, v) ==
  LET b == mem[v[1]]
  IN  Mk(v[3], v[4], LAMBDA i, j : b[Pos(v, i, j)])
GetV(mem, v) ==
  LET b == mem[v[1]] IN TLCEval([i \in 1..v[3] |-> b[Pos(v, i, 1)]])

(* which element of view v lives at position k (1-based) of its buffer *)
InvPos(v, k) ==
  LET d == k - 1 - v[2] IN
  IF v[3] = 0 \/ v[4] = 0 THEN <<0, 0>>
  ELSE IF v[6] = 0 THEN
    LET a == IF v[5] < 0 THEN -v[5] ELSE v[5]
        e == IF v[5] < 0 THEN -d ELSE d
    IN  IF e < 0 \/ e % a # 0 \/ (e \div a) >= v[3] THEN <<0, 0>>
        ELSE <<(e \div a) + 1, 1>>
  ELSE IF d < 0 THEN <<0, 0>>
  ELSE IF v[5] = 1 /\ (v[6] # 1 \/ v[3] = 1) THEN
    LET j == d \div v[6]  i == d % v[6]
    IN  IF i < v[3] /\ j < v[4] THEN <<i + 1, j + 1>> ELSE <<0, 0>>
  ELSE
    LET i == d \div v[5]  j == d % v[5]
    IN  IF i < v[3] /\ j < v[4] THEN <<i + 1, j + 1>> ELSE <<0, 0>>

(* memory after storing the entries of M selected by Mask into view v *)
PutMask(mem, v, M, Mask(_, _)) ==
  LET b == mem[v[1]]
      nb == [k \in 1..Len(b) |->
               LET ij == InvPos(v, k)
               IN  IF ij[1] > 0 /\ Mask(ij[1], ij[2]) THEN M[ij[1]][ij[2]]
                   ELSE b[k]]
  IN  [mem EXCEPT ![v[1]] = TLCEval(nb)]
Put(mem, v, M)         == PutMask(mem, v, M, LAMBDA i, j : TRUE)
PutU(mem, v, M, uplo)  == PutMask(mem, v, M, LAMBDA i, j : InUplo(uplo, i, j))
PutV(mem, v, x) ==
  LET b == mem[v[1]]
      nb == [k \in 1..Len(b) |->
               LET ij == InvPos(v, k) IN IF ij[1] > 0 THEN x[ij[1]] ELSE b[k]]
  IN  [mem EXCEPT ![v[1]] = TLCEval(nb)]

(* only (the masked part of) view v may differ between two memories *)
FrameMask(mem, post, v, Mask(_, _)) ==
  post = PutMask(mem, v, Get(post, v), Mask)
Frame(mem, post, v) == post = Put(mem, v, Get(post, v))
Frame2(mem, post, v, w) ==
  post = Put(Put(mem, v, Get(post, v)), w, Get(post, w))
Frame3(mem, post, u, v, w) ==
  post = Put(Put(Put(mem, u, Get(post, u)), v, Get(post, v)), w, Get(post, w))
NumV(mem, v) == AllNum(Get(mem, v), v[3], v[4])
=============================================================================
