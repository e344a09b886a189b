----------------------------- MODULE Covariance -----------------------------
(***************************************************************************)
(* How results change when the section is moved, mirrored or scaled, or all   *)
(* moduli or all strengths are multiplied.  The state is the accumulated      *)
(* similarity x' = (a x + b y)/d + tx/d, y' = (c x + e y)/d + ty/d and the     *)
(* accumulated factors; behaviours are words of changes.  CovTerms (below)     *)
(* gives every result after the word from the results before it.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC

CONSTANTS MAXLEN, KINDS

VARIABLES m, fe, ff, hist
vars == <<m, fe, ff, hist>>

AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Norm(q) == LET g == Gcd(AbsV(q.d), Gcd(AbsV(q.a), Gcd(AbsV(q.b), Gcd(AbsV(q.c), Gcd(AbsV(q.e),
                        Gcd(AbsV(q.tx), AbsV(q.ty)))))))
           IN  [v \in DOMAIN q |-> q[v] \div g]
Q(a, b, c, e, d, tx, ty) == [a |-> a, b |-> b, c |-> c, e |-> e, d |-> d, tx |-> tx, ty |-> ty]
Id == Q(1, 0, 0, 1, 1, 0, 0)
(* first q, then p *)
Compose(p, q) == Norm(Q(p.a * q.a + p.b * q.c, p.a * q.b + p.b * q.e,
                        p.c * q.a + p.e * q.c, p.c * q.b + p.e * q.e, p.d * q.d,
                        p.a * q.tx + p.b * q.ty + p.tx * q.d, p.c * q.tx + p.e * q.ty + p.ty * q.d))
Det(q) == q.a * q.e - q.b * q.c

Frac(p, q) == [p |-> p, q |-> q]
Times(x, y) == LET g == Gcd(x.p * y.p, x.q * y.q) IN Frac((x.p * y.p) \div g, (x.q * y.q) \div g)

Shifts  == {<<7, -3>>, <<-250, 400>>, <<1, 0>>}
(* rotations about the origin by multiples of 90 degrees and by Pythagorean angles *)
Rots    == {<<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<12, -5, 13>>, <<-4, 3, 5>>}
Mirrors == {"x", "y"}
Scales  == {Frac(2, 1), Frac(1, 8), Frac(10, 1)}
Units   == {Frac(1, 1000), Frac(1000, 1)}      \* drawn in other units
Factors == {Frac(3, 1), Frac(1, 4), Frac(1000, 1)}

(* keeps TLC's 32-bit integers exact *)
Bounded ==
    /\ \A v \in {m.a, m.b, m.c, m.e, m.d} : AbsV(v) =< 1000
    /\ AbsV(m.tx) =< 1000000 /\ AbsV(m.ty) =< 1000000
    /\ \A v \in {fe.p, fe.q, ff.p, ff.q} : v =< 1000000
Do(k, q, f1, f2, arg) ==
    /\ k \in KINDS /\ Len(hist) < MAXLEN /\ Bounded
    /\ m' = Compose(q, m) /\ fe' = Times(f1, fe) /\ ff' = Times(f2, ff)
    /\ hist' = Append(hist, [op |-> k, arg |-> arg, to |-> Compose(q, m), fe |-> Times(f1, fe), ff |-> Times(f2, ff)])
One == Frac(1, 1)
Init == m = Id /\ fe = One /\ ff = One /\ hist = <<>>
Next ==
    \/ \E s \in Shifts : Do("shift", Q(1, 0, 0, 1, 1, s[1], s[2]), One, One, <<s[1], s[2]>>)
    \/ \E r \in Rots : Do("rotate", Q(r[1], -r[2], r[2], r[1], r[3], 0, 0), One, One, r)
    \/ \E w \in Mirrors : Do("mirror", IF w = "x" THEN Q(1, 0, 0, -1, 1, 0, 0) ELSE Q(-1, 0, 0, 1, 1, 0, 0),
                             One, One, <<IF w = "x" THEN 1 ELSE 0>>)
    \/ \E z \in Scales : Do("scale", Q(z.p, 0, 0, z.p, z.q, 0, 0), One, One, <<z.p, z.q>>)
    \/ /\ \A v \in {m.a, m.b, m.c, m.e, m.d} : AbsV(v) =< 20
       /\ \E z \in Units : Do("scale", Q(z.p, 0, 0, z.p, z.q, 0, 0), One, One, <<z.p, z.q>>)
    \/ \E z \in Factors : Do("moduli", Id, z, One, <<z.p, z.q>>)
    \/ \E z \in Factors : Do("strengths", Id, One, z, <<z.p, z.q>>)
Spec == Init /\ [][Next]_vars

(* the accumulated map stays a similarity, mirrored an odd number of times iff  *)
(* its determinant is negative; the factors are positive                       *)
LawSimilar == /\ m.a * m.a + m.c * m.c = m.b * m.b + m.e * m.e
              /\ m.a * m.b + m.c * m.e = 0 /\ m.d > 0
LawOrientation ==
    LET odd == {n \in 1..Len(hist) : hist[n].op = "mirror"}
        RECURSIVE Count(_)
        Count(n) == IF n = 0 THEN 0 ELSE Count(n - 1) + (IF n \in odd THEN 1 ELSE 0)
    IN  (Det(m) < 0) = (Count(Len(hist)) % 2 = 1)
LawFactors == fe.p > 0 /\ fe.q > 0 /\ ff.p > 0 /\ ff.q > 0

Emit == Len(hist) # MAXLEN \/ PrintT("@@" \o ToJson([hist |-> hist]))
AllKinds == {"shift", "rotate", "mirror", "scale", "moduli", "strengths"}
MoveKinds == {"shift", "rotate", "mirror"}
=============================================================================
