------------------------------ MODULE Scalars ------------------------------
(* Gaussian integers <<re, im>>: exact images of the floating-point numbers  *)
(* the conformance programs use.  A tuple <<0, 0, k>> of length three is not *)
(* a number: k = 1 NaN, 2 +Inf, 3 -Inf, 9 not an integer.                    *)
EXTENDS Integers, Sequences, TLC, SequencesExt

Zero == <<0, 0>>
One  == <<1, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Neg(a)    == <<-a[1], -a[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
(* conjugation and real part keep a non-number what it is *)
Cj(a)     == IF Len(a) = 3 THEN a ELSE <<a[1], -a[2]>>
Re(a)     == IF Len(a) = 3 THEN a ELSE <<a[1], 0>>
IAbs(i)   == IF i < 0 THEN -i ELSE i
Abs1(a)   == IAbs(a[1]) + IAbs(a[2])
Norm2(a)  == a[1] * a[1] + a[2] * a[2]
IsNum(a)  == Len(a) = 2
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Iota(k) == [i \in 1..k |-> i]
(* sum of F(1) .. F(k) *)
SumS(F(_), k) == FoldLeft(LAMBDA acc, i : Add(acc, F(i)), Zero, Iota(k))
SumI(F(_), k) == FoldLeft(LAMBDA acc, i : acc + F(i), 0, Iota(k))
MaxI(F(_), k) == FoldLeft(LAMBDA acc, i : Max2(acc, F(i)), 0, Iota(k))

(* unconjugated inner product of two rows *)
Dot(x, y, k) ==
  FoldLeft(LAMBDA acc, l : <<acc[1] + x[l][1] * y[l][1] - x[l][2] * y[l][2],
                             acc[2] + x[l][1] * y[l][2] + x[l][2] * y[l][1]>>,
           Zero, Iota(k))
=============================================================================
