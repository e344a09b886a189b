------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* The abstract plane.  A rectangular lattice with grid lines GX, GY (even  *)
(* integers, not necessarily uniform).  Every lattice cell is cut by its    *)
(* two diagonals into four quarter triangles; a point set is a set of       *)
(* quarters, a (multi-material) cross-section a labelling of the quarters   *)
(* with region numbers (0 = void).  The algebra is closed under union,      *)
(* difference, intersection, symmetric difference and complement, and all   *)
(* measures of area are integers (after clearing small denominators).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

CONSTANTS GX, GY        \* sequences of even integers, strictly increasing

(* the grid lines used *)
G2a == <<0, 4, 10>>
G2b == <<0, 6, 8>>
G2c == <<-4, 2, 4>>
G3a == <<0, 2, 8, 12>>
G3b == <<-6, 0, 4, 6>>
G4a == <<0, 2, 8, 10, 16>>
G4b == <<-8, -4, 0, 6, 8>>
G5a == <<0, 2, 6, 8, 14, 16>>
G3f == <<0, 2, 20, 22>>
G3w == <<0, 8, 10, 18>>
G2s == <<0, 6, 12>>
G3s == <<-8, -2, 2, 8>>

NX == Len(GX) - 1
NY == Len(GY) - 1

(* Quarters are numbered: cell (i,j), part 1 south, 2 east, 3 north, 4 west *)
NQ == 4 * NX * NY
Quarters == 1..NQ
Quarter(i, j, part) == 4 * ((j - 1) * NX + (i - 1)) + part
CellOf(q) == ((q - 1) \div 4) + 1
PartOf(q) == ((q - 1) % 4) + 1
CellI(n) == ((n - 1) % NX) + 1
CellJ(n) == ((n - 1) \div NX) + 1

SWp(i, j) == <<GX[i],     GY[j]>>
SEp(i, j) == <<GX[i + 1], GY[j]>>
NEp(i, j) == <<GX[i + 1], GY[j + 1]>>
NWp(i, j) == <<GX[i],     GY[j + 1]>>
Cp(i, j)  == <<(GX[i] + GX[i + 1]) \div 2, (GY[j] + GY[j + 1]) \div 2>>

(* counter-clockwise corners; side s runs from corner s to corner s+1; side *)
(* 1 is the cell's outer side, sides 2 and 3 lead to and from its centre     *)
Corners == TLCEval([q \in Quarters |->
    LET i == CellI(CellOf(q)) j == CellJ(CellOf(q)) IN
    CASE PartOf(q) = 1 -> <<SWp(i, j), SEp(i, j), Cp(i, j)>>
      [] PartOf(q) = 2 -> <<SEp(i, j), NEp(i, j), Cp(i, j)>>
      [] PartOf(q) = 3 -> <<NEp(i, j), NWp(i, j), Cp(i, j)>>
      [] PartOf(q) = 4 -> <<NWp(i, j), SWp(i, j), Cp(i, j)>>])

Nxt(s) == (s % 3) + 1
Edge(x) == <<Corners[x[1]][x[2]], Corners[x[1]][Nxt(x[2])]>>
Rev(e) == <<e[2], e[1]>>

(* the quarter on the other side of side s of quarter q, 0 when off lattice *)
NbAt == TLCEval([q \in Quarters |->
    LET i == CellI(CellOf(q)) j == CellJ(CellOf(q)) p == PartOf(q)
        turn(d) == Quarter(i, j, ((p - 1 + d) % 4) + 1)
        outer == CASE p = 1 -> (IF j = 1  THEN 0 ELSE Quarter(i, j - 1, 3))
                   [] p = 2 -> (IF i = NX THEN 0 ELSE Quarter(i + 1, j, 4))
                   [] p = 3 -> (IF j = NY THEN 0 ELSE Quarter(i, j + 1, 1))
                   [] p = 4 -> (IF i = 1  THEN 0 ELSE Quarter(i - 1, j, 2))
    IN  <<outer, turn(1), turn(3)>>])

(* the numbering above is right: shared sides have the same end points *)
ASSUME LatticeOK == \A q \in Quarters : \A s \in 1..3 :
    NbAt[q][s] # 0 => \E t \in 1..3 :
        Edge(<<NbAt[q][s], t>>) = Rev(Edge(<<q, s>>)) /\ NbAt[NbAt[q][s]][t] = q

QNb == TLCEval([q \in Quarters |-> {NbAt[q][s] : s \in 1..3} \ {0}])
FrameQ == TLCEval({q \in Quarters : NbAt[q][1] = 0})

(* sides of a set of quarters that bound it, the set on the left hand side *)
Sides(S) == {x \in S \X (1..3) : NbAt[x[1]][x[2]] \notin S}
Boundary(S) == {Edge(x) : x \in Sides(S)}

RECURSIVE Flood(_, _, _)
Flood(front, seen, S) ==
    LET new == (UNION {QNb[q] : q \in front} \cap S) \ seen
    IN  IF new = {} THEN seen ELSE Flood(new, seen \cup new, S)

Component(q, S) == Flood({q}, {q}, S)

RECURSIVE Components(_)
Components(S) ==
    IF S = {} THEN {}
    ELSE LET c == Component(CHOOSE q \in S : TRUE, S) IN {c} \cup Components(S \ c)

Connected(S) == S = {} \/ Component(CHOOSE q \in S : TRUE, S) = S

(* the void, and the part of it reachable from outside the lattice *)
Void(S)    == Quarters \ S
Outside(S) == LET v == Void(S) f == v \cap FrameQ IN Flood(f, f, v)
HoleSet(S) == Void(S) \ Outside(S)
HoleComponents(S) == Components(HoleSet(S))

(* edges of the boundary that face the outside: the exterior perimeter *)
ExteriorEdges(S) == LET h == HoleSet(S)
                    IN  {Edge(x) : x \in {y \in Sides(S) : NbAt[y[1]][y[2]] \notin h}}

(* No vertex of the boundary is visited twice: the set is a disjoint union *)
(* of polygons that do not touch themselves or each other in a point.      *)
Vertices == TLCEval(UNION {{Corners[q][c] : c \in 1..3} : q \in Quarters})
OutSides == TLCEval([v \in Vertices |->
                {x \in Quarters \X (1..3) : Corners[x[1]][x[2]] = v}])
PinchAt(v, S) == Cardinality({x \in OutSides[v] :
                    x[1] \in S /\ NbAt[x[1]][x[2]] \notin S}) > 1
NoPinch(S) == \A v \in Vertices : ~PinchAt(v, S)

Points(S) == {e[1] : e \in Boundary(S)}

----------------------------------------------------------------------------
(* Exact integrals over a triangle with integer corners p, q, r (signed by *)
(* orientation), cleared of denominators:                                  *)
(*    <<2A, 6 INT x, 6 INT y, 12 INT xx, 12 INT yy, 24 INT xy>>            *)
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])

TriInt(p, q, r) ==
    LET d == Cross(p, q, r)
        sx == p[1] + q[1] + r[1]
        sy == p[2] + q[2] + r[2]
        sxx == p[1] * p[1] + q[1] * q[1] + r[1] * r[1]
        syy == p[2] * p[2] + q[2] * q[2] + r[2] * r[2]
        sxy == p[1] * p[2] + q[1] * q[2] + r[1] * r[2]
    IN  << d, d * sx, d * sy,
           (d * (sxx + sx * sx)) \div 2,
           (d * (syy + sy * sy)) \div 2,
           d * (sxy + sx * sy) >>

Zero6 == <<0, 0, 0, 0, 0, 0>>
Add6(a, b) == [k \in 1..6 |-> a[k] + b[k]]
Neg6(a) == [k \in 1..6 |-> -a[k]]

QInt == TLCEval([q \in Quarters |-> LET c == Corners[q] IN TriInt(c[1], c[2], c[3])])

SumInt(S) == FoldSet(LAMBDA q, acc : Add6(QInt[q], acc), Zero6, S)

(* The same integrals from the boundary alone (Green's theorem): the signed *)
(* triangles of the directed boundary edges with the origin.                *)
SumEdges(E) == FoldSet(LAMBDA e, acc : Add6(TriInt(<<0, 0>>, e[1], e[2]), acc), Zero6, E)

GreenLaw(S) == SumInt(S) = SumEdges(Boundary(S))
=============================================================================
