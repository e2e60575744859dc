------------------------------- MODULE Moves -------------------------------
(* Recorded histories of moves and swaps of diagonal blocks are behaviours   *)
(* of the machine in Reorder: step records are                               *)
(*   <<swap?, x, y, z, code, ifst, ilst, id1, sz1, id2, sz2, ...>>           *)
EXTENDS Reorder, TLC

Within0(x, tol) == x >= 0 /\ x <= tol
Seen(st) == [k \in 1..((Len(st) - 7) \div 2) |-> [id |-> st[6 + 2 * k], sz |-> st[7 + 2 * k]]]
Sizes(s) == [k \in 1..Len(s) |-> s[k].sz]

(* distinct eigenvalues: every step succeeds and the blocks are where the    *)
(* machine puts them                                                         *)
StepOK(s, st) ==
  IF st[1] = 1
  THEN CanSwap(s, st[2], st[3], st[4]) /\ st[5] = 0 /\ Seen(st) = SwapAt(s, st[2], st[3], st[4])
  ELSE LET kf == BlockAt(s, st[2])
           kl == BlockAt(s, st[3])
           t == MoveBlock(s, kf, kl)
       IN st[5] = 0 /\ Seen(st) = t /\ st[6] = FirstRow(s, kf) /\ st[7] = FirstRow(t, kl)
RECURSIVE StepsOK(_, _, _)
StepsOK(s, steps, i) ==
  IF i > Len(steps) THEN TRUE
  ELSE StepOK(s, steps[i]) /\ StepsOK(Seen(steps[i]), steps, i + 1)

(* coinciding eigenvalues: a step may give up with code 1; the form and the  *)
(* order are intact in any case                                              *)
LaxStep(st) == st[5] \in {0, 1} /\ (\A b \in 1..Len(Seen(st)) : Seen(st)[b].sz \in 1..2)

MoveOK(a, r) ==
  /\ IF a.kind = 1 THEN \A i \in 1..Len(r.steps) : LaxStep(r.steps[i])
     ELSE StepsOK(Start(r.sz), r.steps, 1)
  /\ r.hess = 1 /\ r.tri = 1 /\ r.std = 1 /\ r.keep = 1 /\ r.pad = 1
  /\ LET n == Len(r.steps) * 12 + 12 IN
       /\ Within0(r.res, n) /\ Within0(r.orth, n) /\ Within0(r.zorth, n)
       /\ ("bres" \in DOMAIN r => Within0(r.bres, n))
       /\ ("nres" \in DOMAIN r => Within0(r.nres, n))
=============================================================================
