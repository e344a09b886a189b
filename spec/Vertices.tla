------------------------------ MODULE Vertices ------------------------------
(***************************************************************************)
(* Geometries as lists of points, facets, holes and control points, and      *)
(* moving vertices.  The state is the described region: for every region its *)
(* rings (the exterior first) as sequences of integer points.  Describing    *)
(* the geometry anew (other start vertices, directions, orders, shared or     *)
(* repeated points) changes nothing; moving vertices replaces exactly those. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS MAXLEN, OPS

(* rings: per region a sequence of rings; area2: twice the area per region;   *)
(* plain: no region lies in a hole of another one                             *)
Pool == ndJsonDeserialize(IOEnv.POOLFILE)

VARIABLES sec, rings, hist
vars == <<sec, rings, hist>>

P == Pool[sec]
Single == Len(P.rings) = 1

----------------------------------------------------------------------------
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
NxtI(r, k) == IF k = Len(r) THEN 1 ELSE k + 1
RECURSIVE Shoelace(_, _)
Shoelace(r, k) == IF k = 0 THEN 0
    ELSE Shoelace(r, k - 1) + (r[k][1] * r[NxtI(r, k)][2] - r[NxtI(r, k)][1] * r[k][2])
AbsV(x) == IF x < 0 THEN -x ELSE x
RingArea2(r) == AbsV(Shoelace(r, Len(r)))
RECURSIVE SumHoles(_, _)
SumHoles(rs, k) == IF k <= 1 THEN 0 ELSE SumHoles(rs, k - 1) + RingArea2(rs[k])
Area2(rs) == RingArea2(rs[1]) - SumHoles(rs, Len(rs))

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Between(a, b, x) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnSeg(p, q, r) == Cross(p, q, r) = 0 /\ Between(p[1], q[1], r[1]) /\ Between(p[2], q[2], r[2])
Meet(a, b, c, d) ==
    \/ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0 /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0
    \/ OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)

(* edges <<ring, position>> *)
EdgesOf(rs) == UNION {{<<n, k>> : k \in 1..Len(rs[n])} : n \in 1..Len(rs)}
A(rs, x) == rs[x[1]][x[2]]
B(rs, x) == rs[x[1]][NxtI(rs[x[1]], x[2])]
Adjacent(rs, x, y) == x[1] = y[1] /\ (NxtI(rs[x[1]], x[2]) = y[2] \/ NxtI(rs[x[1]], y[2]) = x[2])
(* consecutive edges share their vertex only (no spikes)                      *)
NoSpike(rs, x) ==
    LET r == rs[x[1]] a == A(rs, x) b == B(rs, x)
        c == r[NxtI(r, NxtI(r, x[2]))]
    IN  a # b /\ ~(Cross(a, b, c) = 0 /\ (a[1] - b[1]) * (c[1] - b[1]) + (a[2] - b[2]) * (c[2] - b[2]) > 0)
Simple(rs) ==
    LET E == EdgesOf(rs)
    IN  /\ \A x \in E : NoSpike(rs, x)
        /\ \A x, y \in E : (x # y /\ ~Adjacent(rs, x, y)
               /\ (x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])))
               => ~Meet(A(rs, x), B(rs, x), A(rs, y), B(rs, y))
(* strictly inside (p is not on the ring): odd number of crossings            *)
Inside(p, r) ==
    Cardinality({k \in 1..Len(r) :
        LET a == r[k] b == r[NxtI(r, k)]
        IN  (a[2] > p[2]) # (b[2] > p[2])
            /\ (IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0)}) % 2 = 1
ValidRegion(rs) ==
    /\ Simple(rs)
    /\ \A n \in 2..Len(rs) : Inside(rs[n][1], rs[1])
    /\ \A n, m \in 2..Len(rs) : n # m => ~Inside(rs[n][1], rs[m])

----------------------------------------------------------------------------
Verts == EdgesOf(rings[1])
Moves == {<<3, 0>>, <<0, -2>>, <<-1, 1>>, <<2, 5>>, <<-4, -3>>}
Abs   == {-6, 0, 1, 9, 12}

Put(S, f(_)) == [n \in 1..Len(rings[1]) |->
                  [k \in 1..Len(rings[1][n]) |-> IF <<n, k>> \in S THEN f(rings[1][n][k])
                                                 ELSE rings[1][n][k]]]
MoveTo(S, args, new) ==
    /\ new # rings[1]
    /\ ValidRegion(new)
    /\ rings' = <<new>>
    /\ hist' = Append(hist, [op |-> "move", verts |-> S, pts |-> {A(rings[1], x) : x \in S},
                             args |-> args, rings |-> <<new>>, area2 |-> <<Area2(new)>>])
    /\ UNCHANGED sec

(* one vertex, two neighbours, or a whole hole                                *)
Groups == {{x} : x \in Verts}
          \cup {{x, <<x[1], NxtI(rings[1][x[1]], x[2])>>} : x \in Verts}
          \cup {{y \in Verts : y[1] = n} : n \in 2..Len(rings[1])}
MoveRel == \E S \in Groups : \E d \in Moves :
             MoveTo(S, [dx |-> d[1], dy |-> d[2], ax |-> <<>>, ay |-> <<>>],
                    Put(S, LAMBDA p : <<p[1] + d[1], p[2] + d[2]>>))
(* an absolute coordinate overrides the relative one                          *)
MoveAbsX == \E S \in Groups : \E v \in Abs : \E dy \in {0, 1} :
             MoveTo(S, [dx |-> 5, dy |-> dy, ax |-> <<v>>, ay |-> <<>>],
                    Put(S, LAMBDA p : <<v, p[2] + dy>>))
MoveAbsY == \E S \in Groups : \E v \in Abs : \E dx \in {0, -1} :
             MoveTo(S, [dx |-> dx, dy |-> -7, ax |-> <<>>, ay |-> <<v>>],
                    Put(S, LAMBDA p : <<p[1] + dx, v>>))
MoveAbs == \E x \in Verts : \E v \in Abs, w \in Abs :
             MoveTo({x}, [dx |-> 1, dy |-> 1, ax |-> <<v>>, ay |-> <<w>>],
                    Put({x}, LAMBDA p : <<v, w>>))
(* the same region from another description                                   *)
Describe == \E start \in 0..2, rev \in {"none", "ext", "int", "all"}, share \in BOOLEAN,
               order \in {"own", "reversed"} :
    /\ P.plain
    /\ rings' = rings
    /\ hist' = Append(hist, [op |-> "describe", start |-> start, rev |-> rev, share |-> share,
                             order |-> order, rings |-> rings,
                             area2 |-> [n \in 1..Len(rings) |-> Area2(rings[n])]])
    /\ UNCHANGED sec

Init == sec \in 1..Len(Pool) /\ rings = P.rings /\ hist = <<>>
Next == /\ Len(hist) < MAXLEN
        /\ \/ "describe" \in OPS /\ Describe
           \/ "move" \in OPS /\ Single /\ (MoveRel \/ MoveAbsX \/ MoveAbsY \/ MoveAbs)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
AllValid == \A n \in 1..Len(rings) : ValidRegion(rings[n]) /\ Area2(rings[n]) > 0
(* the rings of the pool are the lattice regions                               *)
PoolArea == hist = <<>> => \A n \in 1..Len(rings) : Area2(rings[n]) = P.area2[n]
(* every unmoved vertex stays                                                  *)
OthersStay == [][\A n \in 1..Len(rings) : \A m \in 1..Len(rings[n]) : \A k \in 1..Len(rings[n][m]) :
     (hist'[Len(hist')].op = "move" /\ <<m, k>> \in hist'[Len(hist')].verts)
     \/ rings'[n][m][k] = rings[n][m][k]]_vars
(* nested sections have no description of their own: they are emitted as they are *)
Emit == (Len(hist) < MAXLEN /\ (P.plain \/ hist # <<>>)) \/ PrintT("@@" \o ToJson([sec |-> sec, hist |-> hist]))
OpsAll == {"describe", "move"}
OpsDescribe == {"describe"}
=============================================================================
