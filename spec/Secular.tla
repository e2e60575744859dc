------------------------------ MODULE Secular ------------------------------
(* Sorting, merging two sorted runs, and the secular equation of a rank-one  *)
(* update.  Sorting and merging are decided exactly on integer values; the   *)
(* roots by measurements against an exact bisection in extended precision.   *)
EXTENDS Fac, Moves, Eigs

Vals(mem, v) == GetV(mem, v)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in {s[k] : k \in DOMAIN s} : Count(s, x) = Count(t, x)
Asc(s)  == \A k \in 1..(Len(s) - 1) : s[k][1] <= s[k + 1][1]
Desc(s) == \A k \in 1..(Len(s) - 1) : s[k][1] >= s[k + 1][1]

(* an unknown order is refused and nothing is moved                          *)
LasrtOK(e, mem, post) ==
  LET a == e.a  s == Vals(mem, a.x)  t == Vals(post, a.x) IN
  IF a.id \notin {"I", "i", "D", "d"} THEN e.ret < 0 /\ post = mem
  ELSE /\ e.ret = 0 /\ Frame(mem, post, a.x) /\ SameBag(s, t)
       /\ IF a.id \in {"I", "i"} THEN Asc(t) ELSE Desc(t)

(* the index sequence is a permutation that lists the two runs in ascending  *)
(* order; a run whose direction is negative is stored in descending order    *)
LamrgOK(e, mem, post) ==
  LET a == e.a  s == Vals(mem, a.x)  n == Len(s)
      p == Vals(post, a.ind)
  IN  /\ Frame(mem, post, a.ind)
      /\ {p[k][1] : k \in 1..n} = 0..(n - 1)
      /\ \A k \in 1..(n - 1) : s[p[k][1] + 1][1] <= s[p[k + 1][1] + 1][1]

(* in: every root lies in its own interval; sign: the differences to the     *)
(* poles have the signs that order implies; lam: distance to the true root;  *)
(* res: value of the secular function at the returned differences; del: the  *)
(* differences agree with root and poles; tr: the roots sum to the trace     *)
Laed4OK(r) ==
  /\ r.ret = 0 /\ r.in = 1 /\ r.sign = 1 /\ r.same = 1
  /\ WithinE(r.lam, 40) /\ WithinE(r.res, 40) /\ WithinE(r.del, 8)
  /\ WithinE(r.vec, 8) /\ WithinE(r.unit, 4) /\ WithinE(r.tr, 100)
Laed6OK(r) == r.ret = 0 /\ r.in = 1 /\ r.same = 1 /\ WithinE(r.res, 40)

SecOps == {"lasrt", "lamrg"}
SecAccept(e, mem, post) ==
  CASE e.op = "lasrt" -> LasrtOK(e, mem, post)
    [] e.op = "lamrg" -> LamrgOK(e, mem, post)
SecNumOps == {"n_laed4", "n_laed6"}
SecNumAccept(e) ==
  CASE e.op = "n_laed4" -> Laed4OK(e.ret)
    [] e.op = "n_laed6" -> Laed6OK(e.ret)
=============================================================================
