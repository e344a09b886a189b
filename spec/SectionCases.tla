---------------------------- MODULE SectionCases ----------------------------
(***************************************************************************)
(* Growing a cross-section cell by cell.  Every cell receives one code: a   *)
(* labelling of its four quarters.  TLC explores all fillings (or simulates *)
(* random ones on larger lattices); a complete valid filling is a section,   *)
(* which is printed with its exact integrals, regions, boundaries and holes. *)
(***************************************************************************)
EXTENDS Lattice, Json, SequencesExt

CONSTANTS
    CodesAt(_),     \* for each cell the set of codes <<s, e, n, w>> it may receive
    NPLACE,         \* number of placements; the index is chosen by the state
    NEEDCONN,       \* TRUE: only connected sections are wanted
    MINLAB,         \* at least this many different labels must be present
    TAG             \* printed with each case

VARIABLES k, lab, pl
vars == <<k, lab, pl>>

NCells == NX * NY

SetOf(l) == {q \in Quarters : lab[q] = l}
Solid == {q \in Quarters : lab[q] # 0}
Labels == {lab[q] : q \in Quarters} \ {0}

(* lattice vertices whose last adjacent cell is n *)
DoneAt == TLCEval([n \in 1..NCells |->
    {v \in Vertices : \A x \in OutSides[v] : CellOf(x[1]) <= n
                      /\ \E y \in OutSides[v] : CellOf(y[1]) = n}])

(* no label touches itself in a single point, nor does the solid part.      *)
LocalOK(f, n) ==
    \A v \in DoneAt[n] :
        LET around == {x[1] : x \in OutSides[v]}
        IN  /\ ~PinchAt(v, {q \in around : f[q] # 0})
            /\ \A l \in {f[q] : q \in around} \ {0} : ~PinchAt(v, {q \in around : f[q] = l})

Init == /\ k = 0
        /\ lab = [q \in Quarters |-> 0]
        /\ pl \in 0..(NPLACE - 1)

Fill(c) ==
    LET n == k + 1
        f == [q \in Quarters |-> IF CellOf(q) = n THEN c[PartOf(q)] ELSE lab[q]]
    IN  /\ LocalOK(f, n)
        /\ k' = n /\ lab' = f /\ UNCHANGED pl

Next == k < NCells /\ \E c \in CodesAt(k + 1) : Fill(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Regions == UNION {{<<l, c>> : c \in Components(SetOf(l))} : l \in Labels}

Complete == k = NCells /\ Solid # {} /\ (NEEDCONN => Connected(Solid))
            /\ Cardinality(Labels) >= MINLAB

Sq2(e) == (e[1][1] - e[2][1]) * (e[1][1] - e[2][1]) + (e[1][2] - e[2][2]) * (e[1][2] - e[2][2])

RegionRec(r) ==
    [ lab   |-> r[1],
      int   |-> SumInt(r[2]),
      edges |-> SetToSeq(Boundary(r[2])),
      tris  |-> SetToSeq({Corners[q] : q \in r[2]}),
      holes |-> Cardinality(HoleComponents(r[2])) ]

CaseRec ==
    LET regs == SetToSeq(Regions)
        sol == Solid
        hs == SetToSeq(HoleComponents(sol))
        x == SetToSeq(ExteriorEdges(sol))
    IN  [ tag   |-> TAG,
          grid  |-> <<GX, GY>>,
          pl    |-> pl,
          lab   |-> lab,
          regs  |-> [n \in 1..Len(regs) |-> RegionRec(regs[n])],
          conn  |-> Connected(sol),
          holes |-> [n \in 1..Len(hs) |->
                       [edges |-> SetToSeq(Boundary(hs[n])), int |-> SumInt(hs[n])]],
          ext   |-> [n \in 1..Len(x) |-> Sq2(x[n])],
          tot   |-> SumInt(sol) ]

Emit == ~Complete \/ PrintT("@@" \o ToJson(CaseRec))

----------------------------------------------------------------------------
(* Laws of the specification itself, checked on every complete section.     *)
LawGreen == k = NCells => \A l \in Labels : GreenLaw(SetOf(l))
LawAdditive == k = NCells =>
    FoldSet(LAMBDA l, acc : Add6(SumInt(SetOf(l)), acc), Zero6, Labels) = SumInt(Solid)
LawPositive == (k = NCells /\ Solid # {}) =>
    LET t == SumInt(Solid) IN
    /\ t[1] > 0 /\ t[4] > 0 /\ t[5] > 0
    \* Cauchy-Schwarz: centroidal second moments are positive
    /\ 2 * t[2] * t[2] < 3 * t[1] * t[4] * 2
LawHoles == k = NCells =>
    \* Euler: boundary cycles = components + holes when nothing is pinched
    LET nb == Cardinality(Components(Solid)) nh == Cardinality(HoleComponents(Solid))
    IN  (Solid = {} \/ NoPinch(Solid)) /\ (Solid # {} => nb >= 1) /\ nh >= 0
LawOutside == k = NCells =>
    \* void = outside + holes, and the exterior edges close up
    LET x == ExteriorEdges(Solid) IN
    /\ Outside(Solid) \cap HoleSet(Solid) = {}
    /\ {e[1] : e \in x} = {e[2] : e \in x}

----------------------------------------------------------------------------
(* Lattices, codes *)

Full(l) == <<l, l, l, l>>
Halves(a, b) == {<<a, b, b, a>>, <<a, a, b, b>>, <<b, a, a, b>>, <<b, b, a, a>>}
Thirds(a, b) == {<<a, b, b, b>>, <<b, a, b, b>>, <<b, b, a, b>>, <<b, b, b, a>>}

CRect1  == {Full(0), Full(1)}
CRect2  == {Full(0), Full(1), Full(2)}
CRect3  == {Full(0), Full(1), Full(2), Full(3)}
CHalf1  == {Full(0), Full(1)} \cup Halves(1, 0)
CFine1  == CHalf1 \cup Thirds(1, 0) \cup Thirds(0, 1)
CHalf2  == {Full(0), Full(1), Full(2)} \cup Halves(1, 0) \cup Halves(2, 0) \cup Halves(1, 2)
CSolid2 == {Full(1), Full(2)} \cup Halves(1, 2)
CSolid3 == CSolid2 \cup {Full(3)} \cup Halves(1, 3) \cup Halves(2, 3)
CFine2  == CHalf2 \cup Thirds(1, 2) \cup Thirds(2, 1) \cup Thirds(1, 0) \cup Thirds(0, 2)

CodesRect1(n) == CRect1
CodesRect2(n) == CRect2
CodesRect3(n) == CRect3
CodesHalf1(n) == CHalf1
CodesHalf2(n) == CHalf2
CodesFine1(n) == CFine1
CodesFine2(n) == CFine2
CodesSolid2(n) == CSolid2
CodesSolid3(n) == CSolid3
CodesSolid1(n) == {Full(1)}

Border(n) == CellI(n) \in {1, NX} \/ CellJ(n) \in {1, NY}
Corner(n) == CellI(n) \in {1, NX} /\ CellJ(n) \in {1, NY}
Depth(n)  == LET m(x, y) == IF x < y THEN x ELSE y
             IN  m(m(CellI(n) - 1, NX - CellI(n)), m(CellJ(n) - 1, NY - CellJ(n)))

(* sections with voids: a closed border, anything inside *)
CodesRing1(n) == IF Corner(n) THEN CHalf1 \ {Full(0)}
                 ELSE IF Border(n) THEN {Full(1)} ELSE CHalf1 \ {Full(1)}
CodesRing2(n) == IF Corner(n) THEN CSolid2 \cup Halves(1, 0) \cup Halves(2, 0)
                 ELSE IF Border(n) THEN CSolid2 ELSE CHalf2
(* several voids kept apart by solid rows and columns *)
Sieve(n) == CellI(n) % 2 = 0 /\ CellJ(n) % 2 = 0 /\ ~Border(n)
CodesSieve1(n) == IF Sieve(n) THEN CHalf1 \ {Full(1)} ELSE {Full(1)}
CodesSieve2(n) == IF Sieve(n) THEN {Full(0)} \cup Halves(1, 0) \cup Halves(2, 0)
                  ELSE {Full(1), Full(2)}
(* a band through the middle column, to cut sieves with *)
CodesBand(n) == IF 2 * CellI(n) = NX + 1 THEN (IF Border(n) THEN {Full(1)} \cup Halves(1, 0) ELSE {Full(1)}) ELSE {Full(0)}
(* nested: tube, void ring, core *)
CodesNest(n)  == CASE Depth(n) = 0 -> IF Corner(n) THEN {Full(1)} ELSE {Full(1), Full(2)}
                   [] Depth(n) = 1 -> {Full(0)}
                   [] OTHER        -> {Full(1), Full(2), <<1, 2, 2, 1>>, <<2, 1, 1, 2>>}
=============================================================================
