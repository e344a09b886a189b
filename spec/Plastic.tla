------------------------------ MODULE Plastic ------------------------------
(***************************************************************************)
(* Cutting sections along lattice lines.  For every region and every level   *)
(* of the lattice (grid lines and cell middles) four times the area above    *)
(* (or right of) the level, exactly.  Between two levels the force above an   *)
(* axis falls monotonically, so the levels bracket the plastic axis.         *)
(***************************************************************************)
EXTENDS SectionCases

YLevels == {v[2] : v \in Vertices}
XLevels == {v[1] : v \in Vertices}

(* four times the area of quarter q on the upper side of level c; the level  *)
(* is never strictly inside a quarter except through its middle              *)
Above4(q, c, ax) ==
    LET h == {Corners[q][n][ax] : n \in 1..3}
        lo == CHOOSE x \in h : \A y \in h : x <= y
        hi == CHOOSE x \in h : \A y \in h : x >= y
    IN  IF lo >= c THEN 2 * QInt[q][1] ELSE IF hi <= c THEN 0 ELSE QInt[q][1]
Above(S, c, ax) == FoldSet(LAMBDA q, acc : acc + Above4(q, c, ax), 0, S)

(* the middle cut really halves: the cut quarter has a corner on the level    *)
(* and its other two corners equally far on both sides                       *)
ASSUME CutHalves == \A q \in Quarters : \A ax \in 1..2 :
    \A c \in (IF ax = 1 THEN XLevels ELSE YLevels) :
        LET h == [n \in 1..3 |-> Corners[q][n][ax]]
        IN  (\E n \in 1..3 : h[n] < c) /\ (\E n \in 1..3 : h[n] > c)
            => h[1] + h[2] + h[3] = 3 * c /\ \E n \in 1..3 : h[n] = c

LevelsSeq(ax) == SetToSortSeq(IF ax = 1 THEN XLevels ELSE YLevels, LAMBDA a, b : a < b)

PlasticRec ==
    LET c == CaseRec
        regs == SetToSeq(Regions)
    IN  [ case |-> c,
          xlev |-> LevelsSeq(1), ylev |-> LevelsSeq(2),
          right |-> [n \in 1..Len(regs) |->
                       [m \in 1..Len(LevelsSeq(1)) |-> Above(regs[n][2], LevelsSeq(1)[m], 1)]],
          above |-> [n \in 1..Len(regs) |->
                       [m \in 1..Len(LevelsSeq(2)) |-> Above(regs[n][2], LevelsSeq(2)[m], 2)]] ]

EmitPlastic == ~Complete \/ PrintT("@@" \o ToJson(PlasticRec))

LawMonotone == k = NCells => \A d \in 1..2 :
    LET s == LevelsSeq(d)
    IN  /\ Above(Solid, s[1], d) = 2 * SumInt(Solid)[1]
        /\ Above(Solid, s[Len(s)], d) = 0
        /\ \A m \in 1..(Len(s) - 1) : Above(Solid, s[m], d) >= Above(Solid, s[m + 1], d)
=============================================================================
