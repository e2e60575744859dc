----------------------------- MODULE MCReorder -----------------------------
(* Exhaustive exploration of the reordering machine for small orders.        *)
EXTENDS Reorder, FiniteSets
CONSTANT MaxBlocks
VARIABLES s, s0
vars == <<s, s0>>
Init == /\ s0 \in UNION {[1..k -> 1..2] : k \in 1..MaxBlocks}
        /\ s = Start(s0)
Move == \E i, j \in 0..(Order(s) - 1) : s' = MoveTo(s, i, j) /\ UNCHANGED s0
Swap == \E j \in 0..(Order(s) - 1), n1, n2 \in 1..2 :
          CanSwap(s, j, n1, n2) /\ s' = SwapAt(s, j, n1, n2) /\ UNCHANGED s0
Next == Move \/ Swap
Spec == Init /\ [][Next]_vars
(* no eigenvalue is lost, duplicated or resized                              *)
Permutation == /\ Len(s) = Len(s0)
               /\ {s[i].id : i \in 1..Len(s)} = 1..Len(s0)
               /\ \A i \in 1..Len(s) : s[i].sz = s0[s[i].id]
               /\ Order(s) = Order(Start(s0))
(* a move is a chain of swaps of neighbouring blocks                         *)
RECURSIVE Bubble(_, _, _)
Bubble(t, k, l) ==
  IF k = l THEN t
  ELSE IF k < l THEN Bubble(SwapAt(t, FirstRow(t, k), t[k].sz, t[k + 1].sz), k + 1, l)
  ELSE Bubble(SwapAt(t, FirstRow(t, k - 1), t[k - 1].sz, t[k].sz), k - 1, l)
MoveIsSwaps == \A i, j \in 0..(Order(s) - 1) : MoveTo(s, i, j) = Bubble(s, BlockAt(s, i), BlockAt(s, j))
(* moving back restores the order                                            *)
Inverse == \A i, j \in 1..Len(s) : MoveBlock(MoveBlock(s, i, j), j, i) = s
(* the moved block covers the row it was sent to, or ends next to it         *)
Arrives == \A i, j \in 0..(Order(s) - 1) :
  LET k == BlockAt(s, j) t == MoveTo(s, i, j) IN
    FirstRow(t, k) \in {j - 1, j, j + 1}
=============================================================================
