-------------------------------- MODULE Work --------------------------------
(* Workspace requirements.  A requirement is a shape m x n that may have gaps *)
(* between its columns (rows) unless contig is set; vec marks requirements    *)
(* made of vectors only.  What a requirement is worth is decided by the       *)
(* memory a caller may supply for it: such memory must be splittable, by       *)
(* reshaping, into the pieces that were asked for.                            *)
EXTENDS Views

Req(m, n, contig, vec) == [m |-> m, n |-> n, contig |-> contig, vec |-> vec]
ReqSize(r) == r.m * r.n
\* the workspaces a caller may supply for r: packed, or -- if allowed -- with gaps
Supplies(r) ==
  {BaseM(l, 0, r.m, r.n, (IF l = "C" THEN r.m ELSE r.n) + g) :
     l \in {"C", "R"}, g \in IF r.contig THEN {0} ELSE {0, 2}}
\* ways to take the piece q out of the workspace w
Pieces(w, q) ==
  IF ReqSize(q) = 0 THEN {Step(w, <<"rm", 0, 0, 1>>)}
  ELSE IF q.contig THEN IF Contiguous(w) /\ Size(w) >= ReqSize(q) THEN {Step(w, <<"rv", ReqSize(q), 1>>)} ELSE {}
  ELSE {t \in {Step(w, <<"rm", q.m, q.n, 1>>)} \cup (IF q.vec THEN {Step(w, <<"rv", ReqSize(q), 1>>)} ELSE {}) : t.ok}
Serves(r, q) == \A w \in Supplies(r) : Pieces(w, q) # {}
ServesBoth(r, a, b) == \A w \in Supplies(r) :
   \/ \E t \in Pieces(w, a) : Pieces(t.v, b) # {}
   \/ \E t \in Pieces(w, b) : Pieces(t.v, a) # {}
Turned(q) == IF q.vec THEN q ELSE Req(q.n, q.m, q.contig, q.vec)

(* one combination step: r is what became of a *)
SoundMax(a, b, r) == Serves(r, a) /\ Serves(r, b)
SoundSum(a, b, r) == ServesBoth(r, a, b)
SoundTurn(a, r)   == IF a.contig THEN r.contig /\ ReqSize(r) >= ReqSize(a) ELSE Serves(r, Turned(a))

(* the algebra of WorkInfo, as documented there *)
Norm(s) == Req(s, 1, TRUE, FALSE)
Larger(x, y) == IF x >= y THEN x ELSE y
WMax(a, b) ==
  IF ReqSize(b) = 0 THEN a ELSE IF ReqSize(a) = 0 THEN b
  ELSE LET v == a.vec /\ b.vec IN
    IF a.contig \/ b.contig THEN Req(Larger(ReqSize(a), ReqSize(b)), 1, TRUE, v)
    ELSE IF a.vec = b.vec /\ (a.m = b.m \/ a.n = b.n) THEN Req(Larger(a.m, b.m), Larger(a.n, b.n), FALSE, v)
    ELSE Req(Larger(ReqSize(a), ReqSize(b)), 1, TRUE, v)
WSum(a, b) ==
  IF ReqSize(b) = 0 THEN a ELSE IF ReqSize(a) = 0 THEN b
  ELSE LET v == a.vec /\ b.vec IN
    IF a.contig \/ b.contig THEN Req(ReqSize(a) + ReqSize(b), 1, TRUE, v)
    ELSE IF a.n = b.n THEN Req(a.m + b.m, a.n, FALSE, v)
    ELSE IF a.m = b.m THEN Req(a.m, a.n + b.n, FALSE, v)
    ELSE IF b.vec /\ a.n = b.m THEN Req(a.m + 1, a.n, FALSE, v)
    ELSE IF a.vec /\ a.m = b.n THEN Req(b.m + 1, b.n, FALSE, v)
    ELSE Req(ReqSize(a) + ReqSize(b), 1, TRUE, v)
WTurn(a) == IF ReqSize(a) = 0 \/ a.vec THEN a ELSE Req(a.n, a.m, a.contig, FALSE)

(* events: a chain of combinations recorded from the real WorkInfo            *)
(*   a.seq[k] = <<op, m, n, contig, vec>>, ret[k] = <<m, n, contig>>           *)
WorkOps == {"winfo"}
RECURSIVE Chain(_, _, _, _)
Chain(seq, ret, k, vec) ==
  IF k > Len(seq) THEN TRUE
  ELSE LET o == seq[k]
           b == Req(o[2], o[3], o[4] = 1, o[5] = 1)
           a == IF k = 1 THEN b ELSE Req(ret[k - 1][1], ret[k - 1][2], ret[k - 1][3] = 1, vec)
           v == CASE o[1] = "=" -> b.vec
                  [] o[1] = "t" -> vec
                  [] OTHER -> IF ReqSize(b) = 0 THEN vec ELSE IF ReqSize(a) = 0 THEN b.vec ELSE vec /\ b.vec
           r == Req(ret[k][1], ret[k][2], ret[k][3] = 1, v)
       IN /\ CASE o[1] = "=" -> ReqSize(r) >= ReqSize(b) /\ Serves(r, b)
               [] o[1] = "t" -> SoundTurn(a, r)
               [] o[1] = "m" -> SoundMax(a, b, r)
               [] o[1] = "+" -> SoundSum(a, b, r)
          /\ Chain(seq, ret, k + 1, v)
WorkAccept(e, mem, post) == post = mem /\ Len(e.ret) = Len(e.a.seq) /\ Chain(e.a.seq, e.ret, 1, FALSE)
=============================================================================
