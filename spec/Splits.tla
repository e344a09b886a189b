------------------------------- MODULE Splits -------------------------------
(***************************************************************************)
(* Splitting by lines.  A geometry is a labelled lattice (from a recorded     *)
(* pool); the state adds the lines it has been split by so far.  A cell is    *)
(* the part of a quarter on one given side of every line; a piece is a         *)
(* connected set of cells of one region and one side of every line.  Points    *)
(* are homogeneous integer triples <<x, y, w>>, w > 0.                         *)
(***************************************************************************)
EXTENDS Lattice, Json, SequencesExt, IOUtils

CONSTANTS MAXLEN, FIRST, MAXD   \* MAXD: largest direction component
Pool == ndJsonDeserialize(IOEnv.POOLFILE)       \* [lab]

VARIABLES start, lines, hist
vars == <<start, lines, hist>>

AbsV(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Hom(x, y, w) == LET g == Gcd(AbsV(w), Gcd(AbsV(x), AbsV(y))) * (IF w < 0 THEN -1 ELSE 1)
                IN  <<x \div g, y \div g, w \div g>>

(* a line: <<p, q>> integer points, its direction is from p to q              *)
Dir(l) == LET dx == l[2][1] - l[1][1] dy == l[2][2] - l[1][2] g == Gcd(AbsV(dx), AbsV(dy))
          IN  <<dx \div g, dy \div g>>
(* > 0 on the left of the direction                                           *)
Side(l, v) == LET d == Dir(l) IN d[1] * (v[2] - v[3] * l[1][2]) - d[2] * (v[1] - v[3] * l[1][1])
Cut(l, a, b) == LET sa == Side(l, a) sb == Side(l, b)
                IN  Hom(sb * a[1] - sa * b[1], sb * a[2] - sa * b[2], sb * a[3] - sa * b[3])

(* the part of a convex polygon on side sg of the line: <<>> when that has no  *)
(* interior                                                                    *)
ClipPoly(l, sg, P) ==
    LET at(n) == LET a == P[n] b == P[(n % Len(P)) + 1]
                     da == sg * Side(l, a) db == sg * Side(l, b)
                 IN  (IF da >= 0 THEN <<a>> ELSE <<>>)
                     \o (IF (da > 0 /\ db < 0) \/ (da < 0 /\ db > 0) THEN <<Cut(l, a, b)>> ELSE <<>>)
        r == FlattenSeq([n \in 1..Len(P) |-> at(n)])
    IN  IF P = <<>> \/ Len(r) < 3 THEN <<>> ELSE r
(* ... and of a segment: <<>> when that has no length                          *)
ClipSeg(l, sg, S) ==
    IF S = <<>> THEN <<>> ELSE
    LET da == sg * Side(l, S[1]) db == sg * Side(l, S[2])
    IN  IF da <= 0 /\ db <= 0 THEN <<>>
        ELSE <<IF da < 0 THEN Cut(l, S[1], S[2]) ELSE S[1], IF db < 0 THEN Cut(l, S[1], S[2]) ELSE S[2]>>

RECURSIVE ClipAll(_, _, _, _)
ClipAll(P, L, s, n) == IF n = 0 THEN P ELSE ClipPoly(L[n], s[n], ClipAll(P, L, s, n - 1))
RECURSIVE SegAll(_, _, _, _)
SegAll(S, L, s, n) == IF n = 0 THEN S ELSE ClipSeg(L[n], s[n], SegAll(S, L, s, n - 1))

H(v) == <<v[1], v[2], 1>>
Cell(q, L, s) == ClipAll([c \in 1..3 |-> H(Corners[q][c])], L, s, Len(L))
Through(q, k, L, s) == SegAll(<<H(Corners[q][k]), H(Corners[q][Nxt(k)])>>, L, s, Len(L)) # <<>>

RECURSIVE Spread(_, _, _, _, _)
Spread(front, seen, S, L, s) ==
    LET new == {NbAt[x[1]][x[2]] : x \in {y \in front \X (1..3) :
                   NbAt[y[1]][y[2]] \in S \ seen /\ Through(y[1], y[2], L, s)}}
    IN  IF new = {} THEN seen ELSE Spread(new, seen \cup new, S, L, s)
RECURSIVE Parts(_, _, _)
Parts(S, L, s) == IF S = {} THEN {}
    ELSE LET q == CHOOSE q \in S : TRUE
             c == Spread({q}, {q}, S, L, s) IN {c} \cup Parts(S \ c, L, s)

LabQ(l) == {q \in Quarters : Pool[start].lab[q] = l}
Labs == {Pool[start].lab[q] : q \in Quarters} \ {0}
Signs(n) == [1..n -> {1, -1}]
Pieces(L) == UNION {UNION {
        {[lab |-> l, s |-> s, cells |-> {Cell(q, L, s) : q \in c}]
            : c \in Parts({q \in LabQ(l) : Cell(q, L, s) # <<>>}, L, s)}
        : s \in Signs(Len(L))} : l \in Labs}
PieceSeq(L) == LET ps == SetToSeq(Pieces(L))
    IN  [n \in 1..Len(ps) |-> [lab |-> ps[n].lab, s |-> ps[n].s, cells |-> SetToSeq(ps[n].cells)]]

(* Placements may turn and mirror the plane.  The first group of pieces is     *)
(* above the line, right of a vertical line: the side of the direction it is   *)
(* on, for each linear part.                                                   *)
LinearParts == <<<<1, 0, 0, 1>>, <<0, -1, 1, 0>>, <<1, 0, 0, -1>>, <<1, 1, -1, 1>>, <<-1, 0, 0, -1>>, <<0, 1, 1, 0>>>>
TopSide(M, l) ==
    LET d == Dir(l) dx == M[1] * d[1] + M[2] * d[2] dy == M[3] * d[1] + M[4] * d[2]
        left == IF dx # 0 THEN (IF dx > 0 THEN 1 ELSE -1) ELSE IF dy > 0 THEN -1 ELSE 1
    IN  IF M[1] * M[4] - M[2] * M[3] > 0 THEN left ELSE -left

----------------------------------------------------------------------------
XS == {GX[n] : n \in 1..Len(GX)}
YS == {GY[n] : n \in 1..Len(GY)}
Beyond == {<<GX[1] - 3, GY[1] - 1>>, <<GX[Len(GX)] + 1, GY[Len(GY)] + 4>>, <<GX[1] + 1, GY[1] + 1>>,
           <<GX[1] - 3, GY[Len(GY)]>>, <<GX[2] + 1, GY[2] - 1>>, <<GX[2], GY[1] - 1>>, <<GX[1] + 1, GY[Len(GY)] + 4>>}
Pts == Vertices \cup Beyond
Lines == TLCEval({l \in Pts \X Pts : l[1] # l[2] /\ AbsV(Dir(l)[1]) <= MAXD /\ AbsV(Dir(l)[2]) <= MAXD})

Init == start \in FIRST /\ lines = <<>> /\ hist = <<>>
SplitBy(l) ==
    LET L == Append(lines, l) ps == PieceSeq(L)
    IN  /\ lines' = L
        /\ hist' = Append(hist, [p |-> l[1], q |-> l[2], pieces |-> ps,
                                 top |-> [n \in 1..Len(LinearParts) |-> TopSide(LinearParts[n], l)]])
        /\ UNCHANGED start
Next == Len(lines) < MAXLEN /\ \E l \in Lines : SplitBy(l)
Spec == Init /\ [][Next]_vars

(* every corner of a cell is on its side of every line; every quarter has a    *)
(* part somewhere, and one part only where it is on one side of every line     *)
LawSides == \A s \in Signs(Len(lines)) : \A q \in Quarters :
    LET c == Cell(q, lines, s)
    IN  \A n \in 1..Len(c) : c[n][3] > 0 /\ \A k \in 1..Len(lines) : s[k] * Side(lines[k], c[n]) >= 0
LawCover == \A q \in Quarters :
    LET have == {s \in Signs(Len(lines)) : Cell(q, lines, s) # <<>>}
        cut == {k \in 1..Len(lines) : \E a, b \in 1..3 :
                   Side(lines[k], H(Corners[q][a])) > 0 /\ Side(lines[k], H(Corners[q][b])) < 0}
    IN  have # {} /\ (cut = {} => Cardinality(have) = 1)
(* the same line again changes nothing                                         *)
LawTwice == (Len(lines) = 2 /\ lines[1] = lines[2]) =>
    Cardinality(Pieces(lines)) = Cardinality(Pieces(<<lines[1]>>))

FirstAll == 1..Len(Pool)
Emit == Len(hist) # MAXLEN \/ PrintT("@@" \o ToJson([start |-> start, hist |-> hist, parts |-> LinearParts]))
=============================================================================
