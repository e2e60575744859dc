------------------------------- MODULE Views -------------------------------
(* Views of memory.  A view is a shape together with the storage positions   *)
(* its elements occupy; every operation on views is defined by the elements   *)
(* it selects.                                                                *)
(*   k   "M" matrix, "V" vector                                               *)
(*   lay "C"/"R" storage order of a matrix; dir "F"/"B" direction of a vector *)
(*       lower case: an Eigen array, whose vectors are columns "c" or rows "r" *)
(*   at  positions of the elements, columns one after another                 *)
EXTENDS Integers, Sequences, FiniteSets

MatV(lay, m, n, f(_, _)) ==
  [k |-> "M", lay |-> lay, dir |-> "-", m |-> m, n |-> n,
   at |-> [x \in 1..(m * n) |-> f((x - 1) % m, (x - 1) \div m)]]
VecV(dir, n, f(_)) ==
  [k |-> "V", lay |-> "S", dir |-> dir, m |-> n, n |-> 1, at |-> [x \in 1..n |-> f(x - 1)]]

\* descriptors of caller's memory
ByCols(lay) == lay \in {"C", "c"}
BaseM(lay, off, m, n, ld) ==
  MatV(lay, m, n, LAMBDA i, j : off + (IF ByCols(lay) THEN i + j * ld ELSE i * ld + j))
BaseV(dir, off, n, inc) ==
  VecV(dir, n, LAMBDA i : off + inc * (IF dir # "B" THEN i ELSE n - 1 - i))
Base(b) == IF b[1] = "M" THEN BaseM(b[2], b[3], b[4], b[5], b[6]) ELSE BaseV(b[2], b[3], b[4], b[5])

At(v, i, j) == v.at[1 + i + j * v.m]
Size(v) == v.m * v.n
Empty(v) == Size(v) = 0

\* positions in storage order: along columns, along rows, or by address
Storage(v) ==
  IF v.k = "M" /\ ByCols(v.lay) THEN v.at
  ELSE IF v.k = "M" THEN [x \in 1..Size(v) |-> At(v, (x - 1) \div v.n, (x - 1) % v.n)]
  ELSE IF v.dir # "B" THEN v.at
  ELSE [x \in 1..v.m |-> v.at[v.m + 1 - x]]
Contiguous(v) == LET s == Storage(v) IN \A x \in 1..(Len(s) - 1) : s[x + 1] = s[x] + 1

Ok(v) == [ok |-> TRUE, v |-> v]
Refuse(v) == [ok |-> FALSE, v |-> v]

Block(v, a, b, c, d) == MatV(v.lay, b - a, d - c, LAMBDA i, j : At(v, a + i, c + j))
\* how a part of v lies in memory: Eigen tells rows from columns
Eigen(v) == v.lay \in {"c", "r"}
RowDir(v) == IF Eigen(v) THEN "r" ELSE "F"
ColDir(v) == IF Eigen(v) THEN "c" ELSE "F"
OwnDir(v) == IF Eigen(v) THEN v.lay ELSE "F"
RowPart(v, i, c, d) == VecV(RowDir(v), d - c, LAMBDA j : At(v, i, c + j))
ColPart(v, a, b, j) == VecV(ColDir(v), b - a, LAMBDA i : At(v, a + i, j))
DiagLen(v, k) == IF k >= 0 THEN IF v.m < v.n - k THEN v.m ELSE v.n - k
                 ELSE IF v.m + k < v.n THEN v.m + k ELSE v.n
Diag(v, k) == VecV(ColDir(v), DiagLen(v, k), LAMBDA x : IF k >= 0 THEN At(v, x, x + k) ELSE At(v, x - k, x))
Flip(l) == CASE l = "C" -> "R" [] l = "R" -> "C" [] l = "c" -> "r" [] l = "r" -> "c"
Transpose(v) == MatV(Flip(v.lay), v.n, v.m, LAMBDA i, j : At(v, j, i))
Slice(v, a, b) == VecV(v.dir, b - a, LAMBDA i : v.at[1 + a + i])

\* a matrix / vector laid over a sequence of positions in storage order
OverM(lay, m, n, s) == MatV(lay, m, n, LAMBDA i, j : s[1 + (IF ByCols(lay) THEN i + j * m ELSE i * n + j)])
OverV(dir, s) == VecV(dir, Len(s), LAMBDA i : s[IF dir # "B" THEN 1 + i ELSE Len(s) - i])
Rest(s, k) == SubSeq(s, k + 1, Len(s))
RestM(lay, s) == IF ByCols(lay) THEN OverM(lay, Len(s), 1, s) ELSE OverM(lay, 1, Len(s), s)
\* a vector taken out of a matrix: Eigen's keep the orientation of its storage
Oriented(v, w) == [w EXCEPT !.dir = OwnDir(v)]
OkV(v, p, a, b) == Ok(IF p = 0 THEN Oriented(v, a) ELSE b)

(* Reshaping splits a view into a part of the requested shape and the rest.   *)
(* Memory without gaps takes any shape; memory with gaps only gives away      *)
(* whole leading rows or columns; a single row or column is a vector.         *)
ReshapeMM(v, m, n, p) ==
  LET s == Storage(v) IN
  IF m * n > Size(v) THEN Refuse(v)
  ELSE IF Contiguous(v) THEN Ok(IF p = 0 THEN OverM(v.lay, m, n, SubSeq(s, 1, m * n)) ELSE RestM(v.lay, Rest(s, m * n)))
  ELSE IF m * n = 0 THEN Ok(IF p = 0 THEN OverM(v.lay, m, n, <<>>) ELSE v)
  ELSE IF m = v.m THEN Ok(IF p = 0 THEN Block(v, 0, m, 0, n) ELSE Block(v, 0, m, n, v.n))
  ELSE IF n = v.n THEN Ok(IF p = 0 THEN Block(v, 0, m, 0, n) ELSE Block(v, m, v.m, 0, n))
  ELSE Refuse(v)
ReshapeMV(v, n, p) ==
  LET s == Storage(v) IN
  IF n > Size(v) THEN Refuse(v)
  ELSE IF Contiguous(v) THEN OkV(v, p, OverV("F", SubSeq(s, 1, n)), RestM(v.lay, Rest(s, n)))
  ELSE IF n = 0 THEN OkV(v, p, OverV("F", <<>>), v)
  ELSE IF v.n = 1 THEN OkV(v, p, ColPart(v, 0, n, 0), Block(v, n, v.m, 0, 1))
  ELSE IF v.m = 1 THEN OkV(v, p, RowPart(v, 0, 0, n), Block(v, 0, 1, n, v.n))
  ELSE IF n = v.m THEN OkV(v, p, ColPart(v, 0, n, 0), Block(v, 0, v.m, 1, v.n))
  ELSE IF n = v.n THEN OkV(v, p, RowPart(v, 0, 0, n), Block(v, 1, v.m, 0, v.n))
  ELSE Refuse(v)
ReshapeVM(v, m, n, p) ==
  LET s == Storage(v) IN
  IF m * n > v.m THEN Refuse(v)
  ELSE IF ~Contiguous(v) /\ (IF v.dir = "r" THEN n ELSE m) > 1 THEN Refuse(v)
  ELSE Ok(IF p = 0 THEN OverM(IF v.dir \in {"c", "r"} THEN v.dir ELSE "C", m, n, SubSeq(s, 1, m * n)) ELSE OverV(v.dir, Rest(s, m * n)))
ReshapeVV(v, n, p) ==
  IF n > v.m THEN Refuse(v) ELSE Ok(IF p = 0 THEN Slice(v, 0, n) ELSE Slice(v, n, v.m))

\* one step; o = <<name, arguments...>>
Step(v, o) ==
  CASE o[1] = "sl"   -> Ok(Block(v, o[2], o[3], o[4], o[5]))
    [] o[1] = "sr"   -> Ok(RowPart(v, o[2], o[3], o[4]))
    [] o[1] = "sc"   -> Ok(ColPart(v, o[2], o[3], o[4]))
    [] o[1] = "rows" -> Ok(Block(v, o[2], o[3], 0, v.n))
    [] o[1] = "cols" -> Ok(Block(v, 0, v.m, o[2], o[3]))
    [] o[1] = "row"  -> Ok(RowPart(v, o[2], 0, v.n))
    [] o[1] = "col"  -> Ok(ColPart(v, 0, v.m, o[2]))
    [] o[1] = "diag" -> Ok(Diag(v, o[2]))
    [] o[1] = "id"   -> Ok(v)
    [] o[1] = "tr"   -> Ok(Transpose(v))
    [] o[1] = "vs"   -> Ok(Slice(v, o[2], o[3]))
    [] o[1] = "rm"   -> IF v.k = "M" THEN ReshapeMM(v, o[2], o[3], o[4]) ELSE ReshapeVM(v, o[2], o[3], o[4])
    [] o[1] = "rv"   -> IF v.k = "M" THEN ReshapeMV(v, o[2], o[3]) ELSE ReshapeVV(v, o[2], o[3])

RECURSIVE Follow(_, _)
Follow(v, path) ==
  IF path = <<>> THEN Ok(v)
  ELSE LET r == Step(v, Head(path)) IN IF r.ok THEN Follow(r.v, Tail(path)) ELSE r

\* the steps a caller may take: every range and index inside the view
Ranges(n) == {r \in (0..n) \X (0..n) : r[1] <= r[2]}
Steps(v) ==
  IF v.k = "V" THEN
      {<<"vs", r[1], r[2]>> : r \in Ranges(v.m)}
      \cup {<<"rm", m, n, p>> : m \in 0..(v.m + 1), n \in 0..(v.m + 1), p \in 0..1}
      \cup {<<"rv", n, p>> : n \in 0..(v.m + 1), p \in 0..1}
  ELSE {<<"sl", r[1], r[2], c[1], c[2]>> : r \in Ranges(v.m), c \in Ranges(v.n)}
      \cup {<<"sr", i, c[1], c[2]>> : i \in 0..(v.m - 1), c \in Ranges(v.n)}
      \cup {<<"sc", r[1], r[2], j>> : j \in 0..(v.n - 1), r \in Ranges(v.m)}
      \cup {<<"rows", r[1], r[2]>> : r \in Ranges(v.m)}
      \cup {<<"cols", r[1], r[2]>> : r \in Ranges(v.n)}
      \cup {<<"row", i>> : i \in 0..(v.m - 1)}
      \cup {<<"col", j>> : j \in 0..(v.n - 1)}
      \cup {<<"diag", k>> : k \in {k \in (-v.m)..v.n : (k >= 0 \/ -k < v.m) /\ (k <= 0 \/ k < v.n)}}
      \cup {<<"tr">>}
      \cup {<<"rm", m, n, p>> : m \in 0..(v.m + 1), n \in 0..(v.n + 1), p \in 0..1}
      \cup {<<"rm", m, n, p>> : m \in {0, 1, 2, v.n, Size(v)}, n \in {0, 1, 2, v.m, Size(v)}, p \in 0..1}
      \cup {<<"rv", n, p>> : n \in 0..(Size(v) + 1), p \in 0..1}

\* what a view must always be
Injective(v) == Cardinality({v.at[x] : x \in 1..Size(v)}) = Size(v)
Affine(v) == \A i \in 1..(v.m - 2), j \in 0..(v.n - 1) :
               At(v, i + 1, j) - At(v, i, j) = At(v, 1, 0) - At(v, 0, 0)
Positions(v) == {v.at[x] : x \in 1..Size(v)}

(* ------------------------------------------------------------------------- *)
(* events of the real library: the view reached by a path designates these    *)
(* elements, reads their values, and writing 1000+x through element x changes  *)
(* those and nothing else                                                      *)
ViewOps == {"view", "band", "create"}
Wr(v, b, buf) == [x \in 1..Len(buf) |->
   IF \E y \in 1..Size(v) : v.at[y] = x - 1
   THEN <<1000 + (CHOOSE y \in 1..Size(v) : v.at[y] = x - 1), 0>> ELSE buf[x]]
Num0(z) == z[1]
ViewAccept(e, mem, post) ==
  LET a == e.a r == e.ret IN
  IF e.op = "view" THEN
    LET f == Follow(Base(a.base), a.path) v == f.v IN
    /\ f.ok
    /\ r.k = v.k /\ r.m = v.m /\ (v.k = "V" \/ r.n = v.n)
    /\ r.size = Size(v)
    /\ Len(r.at) = Size(v) /\ \A x \in 1..Size(v) : r.at[x] = v.at[x]
    /\ \A x \in 1..Size(v) : r.rd[x] = Num0(mem[a.buf][1 + v.at[x]])
    /\ (v.k = "V" \/ "lay" \notin DOMAIN r \/ r.lay = v.lay)
    /\ post = [mem EXCEPT ![a.buf] = IF a.wr = 1 THEN Wr(v, a.buf, mem[a.buf]) ELSE mem[a.buf]]
  ELSE IF e.op = "band" THEN
    \* element (i,j) of the band lives at (ku+i-j) + j*(ku+kl+1)
    LET In(i, j) == i - j <= a.kl /\ j - i <= a.ku
        Loc(i, j) == a.off + (a.ku + i - j) + j * (a.ku + a.kl + 1)
        Pos(x) == {p \in (0..(a.m - 1)) \X (0..(a.n - 1)) : In(p[1], p[2]) /\ Loc(p[1], p[2]) = x}
    IN /\ r.m = a.m /\ r.n = a.n /\ r.kl = a.kl /\ r.ku = a.ku /\ r.size = a.m * a.n
       /\ \A x \in 1..Len(r.el) : LET t == r.el[x] IN In(t[1], t[2]) /\ t[3] = Loc(t[1], t[2]) /\ t[4] = Num0(mem[a.buf][1 + t[3]])
       /\ Len(r.el) = Cardinality({p \in (0..(a.m - 1)) \X (0..(a.n - 1)) : In(p[1], p[2])})
       /\ post = [mem EXCEPT ![a.buf] = [x \in 1..Len(mem[a.buf]) |->
             IF Pos(x - 1) = {} THEN mem[a.buf][x]
             ELSE LET p == CHOOSE p \in Pos(x - 1) : TRUE IN <<1000 + p[1] + 100 * p[2], 0>>]]
  ELSE \* created array: requested shape, its own distinct elements
    /\ r.m = a.m /\ r.n = a.n /\ r.size = a.m * a.n
    /\ Len(r.at) = a.m * a.n
    /\ Cardinality({r.at[x] : x \in 1..Len(r.at)}) = a.m * a.n
    /\ \A x \in 1..Len(r.at) : r.at[x] >= 0 /\ r.at[x] < r.cap
    /\ post = mem
=============================================================================
