------------------------------ MODULE MCViews ------------------------------
(* Explores compositions of view operations.  As a model: every view reached   *)
(* from a base is injective, lies inside the base and has constant strides.    *)
(* As a generator: prints each path so that it can be replayed on the library. *)
EXTENDS Views, TLC, Json
CONSTANTS Big, Depth, Emit, Deep, Lays, Dirs
\* Lays = {"C","R"}, Dirs = {"F","B"}: LegacyMatrix, LegacyVector;  {"c","r"}: Eigen
Shapes == IF Big = 0 THEN {<<0, 2>>, <<1, 1>>, <<2, 2>>, <<3, 2>>}
          ELSE IF Big = 1 THEN {<<0, 3>>, <<2, 0>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 3>>}
          ELSE {<<2, 4>>, <<4, 2>>, <<3, 4>>, <<4, 3>>, <<5, 4>>, <<4, 4>>, <<4, 5>>}
VARIABLES base, path, view, done
vars == <<base, path, view, done>>
Gaps == {0, 1, 3}
Bases ==
  {<<"M", l, o, s[1], s[2], g + (IF ByCols(l) THEN s[1] ELSE s[2])>> : l \in Lays, o \in {1}, s \in Shapes, g \in Gaps}
  \cup {<<"V", d, 1, n, i>> : d \in Dirs, n \in {s[1] * s[2] : s \in Shapes}, i \in {1, 2}}
GoodBase(b) == b[1] = "V" \/ b[6] >= 1
Init == /\ base \in {b \in Bases : GoodBase(b)}
        /\ path = <<>> /\ view = Base(base) /\ done = FALSE
Next == /\ ~done /\ Len(path) < Depth
        /\ \E o \in Steps(view) :
             LET r == Step(view, o) IN
             \* long random paths: do not run out of elements half way
             /\ Deep => Size(r.v) >= 2 \/ Len(path) = Depth - 1
             /\ path' = Append(path, o) /\ view' = r.v /\ done' = ~r.ok /\ base' = base
Spec == Init /\ [][Next]_vars
Sound == /\ Injective(view) /\ Affine(view)
         /\ Positions(view) \subseteq Positions(Base(base))
\* the two parts of a reshape partition the view
Partition ==
  Len(path) < Depth => \A o \in {o \in Steps(view) : o[1] \in {"rm", "rv"} /\ o[Len(o)] = 0} :
     LET a == Step(view, o) b == Step(view, [o EXCEPT ![Len(o)] = 1]) IN
     a.ok = b.ok /\ (a.ok =>
        /\ Positions(a.v) \cap Positions(b.v) = {} /\ Positions(a.v) \cup Positions(b.v) = Positions(view)
        /\ a.v.m = o[2] /\ (o[1] = "rm" => a.v.n = o[3]))
\* transposing twice, and slicing everything, change nothing
Laws == view.k = "M" =>
  /\ Transpose(Transpose(view)) = view
  /\ Block(view, 0, view.m, 0, view.n) = view
  /\ \A i \in 0..(view.m - 1) : RowPart(view, i, 0, view.n).at = ColPart(Transpose(view), 0, view.n, i).at
Report == (Emit /\ (Len(path) = Depth \/ done)) =>
             PrintT(ToJson([b |-> base, p |-> path, r |-> done]))
=============================================================================
