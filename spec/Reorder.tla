------------------------------ MODULE Reorder ------------------------------
(* The abstract machine behind C14: the diagonal blocks of a (generalized)   *)
(* Schur form are a sequence of [id, sz]; moving the block that covers one   *)
(* row to the place of the block that covers another row, and swapping two   *)
(* adjacent groups of rows, permute that sequence and nothing else.          *)
EXTENDS Integers, Sequences

RECURSIVE RowsUpTo(_, _)
RowsUpTo(s, k) == IF k = 0 THEN 0 ELSE RowsUpTo(s, k - 1) + s[k].sz   \* rows of the first k blocks
FirstRow(s, k) == RowsUpTo(s, k - 1)
Order(s) == RowsUpTo(s, Len(s))
BlockAt(s, row) == CHOOSE k \in 1..Len(s) : FirstRow(s, k) <= row /\ row < RowsUpTo(s, k)
IsStart(s, row) == IF row = Order(s) THEN TRUE ELSE FirstRow(s, BlockAt(s, row)) = row

Without(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
InsertAt(s, k, b) == [i \in 1..(Len(s) + 1) |-> IF i < k THEN s[i] ELSE IF i = k THEN b ELSE s[i - 1]]
MoveBlock(s, kf, kl) == InsertAt(Without(s, kf), kl, s[kf])

(* the effect of move(ifst, ilst)                                            *)
MoveTo(s, ifst, ilst) == MoveBlock(s, BlockAt(s, ifst), BlockAt(s, ilst))

(* the effect of swap(j0, n1, n2): rows j0..j0+n1-1 and the n2 rows after    *)
(* them change places, blocks inside each group keep their order             *)
CanSwap(s, j0, n1, n2) ==
  IF j0 >= 0 /\ j0 + n1 + n2 <= Order(s)
  THEN IsStart(s, j0) /\ IsStart(s, j0 + n1) /\ IsStart(s, j0 + n1 + n2)
  ELSE FALSE
SwapAt(s, j0, n1, n2) ==
  LET a == BlockAt(s, j0)
      b == BlockAt(s, j0 + n1)
      e == IF j0 + n1 + n2 = Order(s) THEN Len(s) + 1 ELSE BlockAt(s, j0 + n1 + n2)
  IN SubSeq(s, 1, a - 1) \o SubSeq(s, b, e - 1) \o SubSeq(s, a, b - 1) \o SubSeq(s, e, Len(s))

Start(sz) == [i \in 1..Len(sz) |-> [id |-> i, sz |-> sz[i]]]
=============================================================================
