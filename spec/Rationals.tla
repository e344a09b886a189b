----------------------------- MODULE Rationals -----------------------------
(***************************************************************************)
(* Small exact rational numbers.  TLC's integers have 32 bits; whatever     *)
(* would not fit is the value Bad, which no enabled action may produce.     *)
(***************************************************************************)
EXTENDS Integers

RECURSIVE GCD(_, _)
GCD(x, y) == IF y = 0 THEN x ELSE GCD(y, x % y)
AbsI(x) == IF x < 0 THEN -x ELSE x

LIM == 1000000000
Bad == [n |-> 0, d |-> 0]
IsBad(x) == x.d = 0
(* n/d reduced, d > 0 *)
Rat(n, d) == LET g == GCD(AbsI(n), d) IN [n |-> n \div g, d |-> d \div g]
RI(k) == [n |-> k, d |-> 1]
Fits(x, y) == x = 0 \/ AbsI(y) <= LIM \div AbsI(x)

RNeg(x) == [n |-> -x.n, d |-> x.d]
RAdd(x, y) ==
    IF IsBad(x) \/ IsBad(y) THEN Bad
    ELSE LET g == GCD(x.d, y.d) kx == y.d \div g ky == x.d \div g
         IN  IF Fits(x.d, kx) /\ Fits(x.n, kx) /\ Fits(y.n, ky)
             THEN Rat(x.n * kx + y.n * ky, x.d * kx) ELSE Bad
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) ==
    IF IsBad(x) \/ IsBad(y) THEN Bad
    ELSE LET g == GCD(AbsI(x.n), y.d) h == GCD(AbsI(y.n), x.d)
             gg == IF g = 0 THEN 1 ELSE g hh == IF h = 0 THEN 1 ELSE h
             n1 == x.n \div gg n2 == y.n \div hh d1 == x.d \div hh d2 == y.d \div gg
         IN  IF Fits(n1, n2) /\ Fits(d1, d2) THEN Rat(n1 * n2, d1 * d2) ELSE Bad
RHalf(x) == RMul(x, Rat(1, 2))
=============================================================================
