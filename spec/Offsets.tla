------------------------------- MODULE Offsets -------------------------------
(***************************************************************************)
(* Offsetting perimeters.  A section (from a recorded pool of labelled        *)
(* lattices) has an exterior perimeter and hole perimeters.  Moving one by an   *)
(* amount gives a set of points decided by the exact distance to it; corners    *)
(* become arcs of RES chords per quarter, so that points between the chords     *)
(* and the arc are not decided (9).  amt is in halves of the lattice unit.      *)
(***************************************************************************)
EXTENDS Lattice, Json, SequencesExt, IOUtils

CONSTANTS FIRST, AMTS, RESS
Pool == ndJsonDeserialize(IOEnv.POOLFILE)       \* [lab]

VARIABLES start, tab, last
vars == <<start, tab, last>>

F(q) == Pool[start].lab[q]
SolidQ == {q \in Quarters : F(q) # 0}
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

(* squared distance to a segment as <<num, den>>, at most that of Far (which is *)
(* beyond every amount)                                                         *)
Far == <<200, 1>>
Seg2(p, e) ==
    LET dx == e[2][1] - e[1][1] dy == e[2][2] - e[1][2]
        ux == p[1] - e[1][1] uy == p[2] - e[1][2]
        l2 == dx * dx + dy * dy t == ux * dx + uy * dy c == ux * dy - uy * dx
    IN  IF t <= 0 THEN <<Min2(200, ux * ux + uy * uy), 1>>
        ELSE IF t >= l2 THEN <<Min2(200, (ux - dx) * (ux - dx) + (uy - dy) * (uy - dy)), 1>>
        ELSE IF c * c > 200 * l2 THEN Far ELSE <<c * c, l2>>
Nearer(x, y) == IF x[1] * y[2] <= y[1] * x[2] THEN x ELSE y
Dist2(p, E) == FoldSet(LAMBDA e, acc : Nearer(Seg2(p, e), acc), Far, E)

(* sample points: integer points of the lattice's box and a margin around it  *)
MARGIN == 4
SX == (GX[1] - MARGIN)..(GX[Len(GX)] + MARGIN)
SY == (GY[1] - MARGIN)..(GY[Len(GY)] + MARGIN)
Samples == SX \X SY
InTri(p, q) == LET c == Corners[q] IN \A k \in 1..3 : Cross(c[k], c[Nxt(k)], p) >= 0
At == TLCEval([p \in Samples |-> {q \in Quarters : InTri(p, q)}])

(* one row per sample: the quarters' region (0 void, -1 hole, 9 several), and  *)
(* the distances to the exterior and to the holes' perimeters                  *)
Table ==
    LET sol == SolidQ hs == HoleSet(sol) x == ExteriorEdges(sol) all == Boundary(sol)
        what(p) == LET ls == {IF q \in hs THEN -1 ELSE F(q) : q \in At[p]}
                   IN  IF ls = {} THEN 0 ELSE IF Cardinality(ls) > 1 THEN 9 ELSE CHOOSE l \in ls : TRUE
    IN  [p \in Samples |-> [w |-> what(p),
                            \* in the section or its holes / in the holes, boundaries included
                            fill |-> At[p] \cap (sol \cup hs) # {},
                            hole |-> At[p] \cap hs # {},
                            sol |-> At[p] \cap sol # {},
                            dx |-> Dist2(p, x), dh |-> Dist2(p, all \ x), da |-> Dist2(p, all)]]

(* An arc's chords span up to half as much again as 90/r degrees: the squared    *)
(* cosine of half of that, rounded down                                         *)
Slack(r) == CASE r = 1 -> <<14, 100>> [] r = 2 -> <<69, 100>> [] r = 3 -> <<85, 100>> [] r >= 12 -> <<99, 100>>
                 [] OTHER -> <<85, 100>>
(* "in": within the amount whatever the arcs, "out": beyond it                *)
Reach(d, a, r) == IF 4 * d[1] * Slack(r)[2] <= a * a * d[2] * Slack(r)[1] THEN "in"
                  ELSE IF 4 * d[1] > a * a * d[2] THEN "out" ELSE "?"
Tri3(c) == IF c THEN "in" ELSE "out"
Not(s) == CASE s = "in" -> "out" [] s = "out" -> "in" [] OTHER -> "?"
And(s, t) == IF s = "out" \/ t = "out" THEN "out" ELSE IF s = "in" /\ t = "in" THEN "in" ELSE "?"
Or(s, t) == Not(And(Not(s), Not(t)))
(* the set moved by a half-units about its perimeter at distance d             *)
Moved(inside, d, a, r) == IF a >= 0 THEN Or(Tri3(inside), Reach(d, a, r))
                          ELSE And(Tri3(inside), Not(Reach(d, -a, r)))
Result(t, where, a, r) ==
    CASE where = "exterior" -> And(Moved(t.fill, t.dx, a, r), Tri3(~t.hole \/ t.dh[1] = 0))
      [] where = "interior" -> And(Tri3(t.fill), Not(Moved(t.hole, t.dh, a, r)))
      [] where = "all"      -> Moved(t.sol, t.da, a, r)
Multi == Cardinality({F(q) : q \in SolidQ}) > 1 \/ Cardinality(Components(SolidQ)) > 1
(* on a kept boundary nothing is decided; a region of a compound keeps what     *)
(* remains of it                                                               *)
Kept(t, where) == \/ where = "exterior" /\ t.dh[1] = 0
                  \/ where = "interior" /\ t.dx[1] = 0
Status(t, where, a, r) ==
    LET s == Result(t, where, a, r)
    IN  IF Kept(t, where) THEN 9
        ELSE IF s = "out" THEN 0 ELSE IF s = "?" THEN 9
        ELSE IF Multi THEN (IF t.w \in 1..8 THEN t.w ELSE 9) ELSE 1

NHoles == Cardinality(HoleComponents(SolidQ))
Wheres == {"exterior", "interior", "all"}

Init == start \in FIRST /\ tab = Table /\ last = [where |-> "none"]
Offset(where, a, r) ==
    /\ last.where = "none"
    /\ Multi => (a < 0 /\ where # "interior" /\ Connected(SolidQ))
    /\ last' = [ where |-> where, amt |-> a, res |-> r,
                 refused |-> where = "interior" /\ NHoles = 0,
                 rows |-> [n \in 1..Cardinality(SY) |->
                             [m \in 1..Cardinality(SX) |->
                                Status(tab[<<GX[1] - MARGIN + m - 1, GY[1] - MARGIN + n - 1>>], where, a, r)]] ]
    /\ UNCHANGED <<start, tab>>
Next == \E where \in Wheres : \E a \in AMTS : \E r \in RESS : Offset(where, a, r)
Spec == Init /\ [][Next]_vars

Ins(where, a, r) == {p \in Samples : Result(tab[p], where, a, r) = "in"}
Outs(where, a, r) == {p \in Samples : Result(tab[p], where, a, r) = "out"}
(* eroding further leaves less, dilating further covers more, and moving all    *)
(* perimeters removes what moving the exterior one removes                      *)
LawMonotone == (last.where \in {"exterior", "all"} /\ last.amt < 0) =>
    /\ Ins(last.where, last.amt - 1, last.res) \cap Outs(last.where, last.amt, last.res) = {}
    /\ last.where = "all" => Ins("all", last.amt, last.res) \cap Outs("exterior", last.amt, last.res) = {}
LawGrow == (last.where \in {"exterior", "all"} /\ last.amt > 0) =>
    /\ {p \in Samples : tab[p].w \in 1..8} \cap Outs(last.where, last.amt, last.res) = {}
(* nothing of a moved set is farther than the amount from the old one           *)
LawInterior == (last.where = "interior" /\ ~last.refused) =>
    \A p \in Samples : ~tab[p].fill => Result(tab[p], "interior", last.amt, last.res) = "out"

Emit == last.where = "none" \/ PrintT("@@" \o ToJson([start |-> start, op |-> last,
            ext |-> SetToSeq(ExteriorEdges(SolidQ)),
            hole |-> SetToSeq(Boundary(SolidQ) \ ExteriorEdges(SolidQ)),
            origin |-> <<GX[1] - MARGIN, GY[1] - MARGIN>>, multi |-> Multi]))
FirstAll == 1..Len(Pool)
AmtsUsual == {-1, -2, -3, -5, 1, 2, 3, 6}
AmtsErode == {-1, -2, -3, -4, -5}
=============================================================================
