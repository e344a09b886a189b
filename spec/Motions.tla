------------------------------ MODULE Motions ------------------------------
(***************************************************************************)
(* Geometry transformations as actions on a rigid motion.  The geometry in   *)
(* hand is a lattice section (from a recorded pool) carried by the motion    *)
(*     x' = (a x + b y)/q + tx      y' = (c x + e y)/q + ty                   *)
(* which applies to everything the description contains: outlines, holes,    *)
(* regions, assigned control points.  Materials and numbers of regions are    *)
(* constant.  Each action composes the motion with the one requested.         *)
(***************************************************************************)
EXTENDS Rationals, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS MAXLEN, POOL, OTHERS, OPS   \* sections in hand, other sections

(* verts: lattice vertices; int: <<2A, 6 INT x, 6 INT y, ...>> per region;    *)
(* w: weight of each region; single: a single geometry (not a compound)       *)
Pool == ndJsonDeserialize(IOEnv.POOLFILE)

VARIABLES sec, mo, cp0, cp, hist
vars == <<sec, mo, cp0, cp, hist>>

P == Pool[sec]
Ident == [a |-> 1, b |-> 0, c |-> 0, e |-> 1, q |-> 1, tx |-> RI(0), ty |-> RI(0)]

----------------------------------------------------------------------------
(* extents and centroids *)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Xs(p, m) == {m.a * p.verts[k][1] + m.b * p.verts[k][2] : k \in 1..Len(p.verts)}
Ys(p, m) == {m.c * p.verts[k][1] + m.e * p.verts[k][2] : k \in 1..Len(p.verts)}
(* <<left, right, bottom, top>> *)
Extents(p, m) ==
    LET xs == Xs(p, m) ys == Ys(p, m)
    IN  << RAdd(Rat(SetMin(xs), m.q), m.tx), RAdd(Rat(SetMax(xs), m.q), m.tx),
           RAdd(Rat(SetMin(ys), m.q), m.ty), RAdd(Rat(SetMax(ys), m.q), m.ty) >>
BoxCentre(p, m) == LET b == Extents(p, m)
                   IN  <<RHalf(RAdd(b[1], b[2])), RHalf(RAdd(b[3], b[4]))>>

RECURSIVE SumW(_, _, _, _)
SumW(p, n, k, weighted) ==
    IF n = 0 THEN 0
    ELSE SumW(p, n - 1, k, weighted) + (IF weighted THEN p.w[n] ELSE 1) * p.int[n][k]
LatticeCentroid(p, weighted) ==
    LET A == SumW(p, Len(p.int), 1, weighted)
    IN  <<Rat(SumW(p, Len(p.int), 2, weighted), 3 * A),
          Rat(SumW(p, Len(p.int), 3, weighted), 3 * A)>>
Apply(m, pt) ==
    << RAdd(RAdd(RMul(Rat(m.a, m.q), pt[1]), RMul(Rat(m.b, m.q), pt[2])), m.tx),
       RAdd(RAdd(RMul(Rat(m.c, m.q), pt[1]), RMul(Rat(m.e, m.q), pt[2])), m.ty) >>
Centroid(p, m, weighted) == Apply(m, LatticeCentroid(p, weighted))

----------------------------------------------------------------------------
(* motions requested by the calls *)
Norm(m) ==
    LET g == GCD(GCD(GCD(AbsI(m.a), AbsI(m.b)), GCD(AbsI(m.c), AbsI(m.e))), m.q)
    IN  [m EXCEPT !.a = @ \div g, !.b = @ \div g, !.c = @ \div g, !.e = @ \div g, !.q = @ \div g]
ShiftBy(m, dx, dy) == [m EXCEPT !.tx = RAdd(@, dx), !.ty = RAdd(@, dy)]
(* linear map <<k, l, n, o>>/r about the point o *)
Linear(m, k, l, n, o, r, ctr) ==
    LET ux == RSub(m.tx, ctr[1]) uy == RSub(m.ty, ctr[2])
    IN  Norm([ a |-> k * m.a + l * m.c, b |-> k * m.b + l * m.e,
               c |-> n * m.a + o * m.c, e |-> n * m.b + o * m.e, q |-> m.q * r,
               tx |-> RAdd(RAdd(RMul(Rat(k, r), ux), RMul(Rat(l, r), uy)), ctr[1]),
               ty |-> RAdd(RAdd(RMul(Rat(n, r), ux), RMul(Rat(o, r), uy)), ctr[2]) ])
Rotated(m, cs, ctr)  == Linear(m, cs[1], -cs[2], cs[2], cs[1], cs[3], ctr)
Mirrored(m, ax, ctr) == IF ax = "x" THEN Linear(m, 1, 0, 0, -1, 1, ctr)
                                    ELSE Linear(m, -1, 0, 0, 1, 1, ctr)

Shifts == {<<RI(3), RI(-2)>>, <<Rat(1, 2), Rat(7, 4)>>, <<RI(-40), RI(0)>>, <<RI(0), Rat(51, 2)>>}
Angles == {<<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<5, 12, 13>>,
           <<-24, 7, 25>>}
About  == {"center", "origin", "point"}
PointOf(n, p, m) == CASE n = "center" -> BoxCentre(p, m)
                      [] n = "origin" -> <<RI(0), RI(0)>>
                      [] n = "point"  -> <<RI(7), Rat(-5, 2)>>
Targets == {"geom", "geom2", "point"}
Edges == {"left", "right", "bottom", "top"}
Idx(on) == CASE on = "left" -> 1 [] on = "right" -> 2 [] on = "bottom" -> 3 [] on = "top" -> 4
Opp(on) == CASE on = "left" -> 2 [] on = "right" -> 1 [] on = "bottom" -> 4 [] on = "top" -> 3
OtherOf(t) == IF t = "geom" THEN OTHERS[1] ELSE OTHERS[2]
TargetPt == <<Rat(-3, 2), RI(11)>>
TargetEdge(t, on) ==
    IF t = "point" THEN (IF on \in {"left", "right"} THEN TargetPt[1] ELSE TargetPt[2])
    ELSE Extents(Pool[OtherOf(t)], Ident)[Idx(on)]
AlignedTo(m, t, on, inner) ==
    LET d == RSub(TargetEdge(t, on), Extents(P, m)[IF inner THEN Idx(on) ELSE Opp(on)])
    IN  IF on \in {"left", "right"} THEN ShiftBy(m, d, RI(0)) ELSE ShiftBy(m, RI(0), d)
CentredOn(m, t) ==
    LET c == Centroid(P, m, ~P.single)
        g == CASE t = "none" -> <<RI(0), RI(0)>>
               [] t = "point" -> TargetPt
               [] OTHER -> Centroid(Pool[OtherOf(t)], Ident, FALSE)
    IN  ShiftBy(m, RSub(g[1], c[1]), RSub(g[2], c[2]))

----------------------------------------------------------------------------
Good(m) == ~IsBad(m.tx) /\ ~IsBad(m.ty) /\ m.q <= 4000

Step(op, args, m) ==
    /\ Good(m)
    /\ mo' = m
    /\ hist' = Append(hist, [op |-> op, args |-> args, m |-> m, cp |-> cp'])
    /\ UNCHANGED <<sec, cp0>>

Shift  == \E d \in Shifts : cp' = cp /\ Step("shift", d, ShiftBy(mo, d[1], d[2]))
Rotate == \E cs \in Angles, o \in About, rad \in BOOLEAN :
            /\ cp' = cp
            /\ LET ctr == PointOf(o, P, mo)
               IN  Step("rotate", <<cs, o, rad>>, Rotated(mo, cs, ctr))
Mirror == \E ax \in {"x", "y"}, o \in About : cp' = cp /\
            Step("mirror", <<ax, o>>, Mirrored(mo, ax, PointOf(o, P, mo)))
Align  == \E t \in Targets, on \in Edges, inner \in BOOLEAN : cp' = cp /\
            Step("align", <<t, on, inner>>, AlignedTo(mo, t, on, inner))
Center == \E t \in Targets \cup {"none"} : cp' = cp /\
            Step("center", <<t>>, CentredOn(mo, t))
(* a new control point for a single geometry: everything else stays          *)
Assign == /\ P.single
          /\ \E k \in 1..2 : cp' = k /\ Step("assign", <<k>>, mo)

Init == /\ sec \in POOL
        /\ mo = Ident
        /\ cp0 \in {0, 1}      \* 0: automatic control points; k: k-th assigned choice
        /\ cp = cp0
        /\ hist = <<>>
Next == /\ Len(hist) < MAXLEN
        /\ \/ "shift" \in OPS /\ Shift
           \/ "rotate" \in OPS /\ Rotate
           \/ "mirror" \in OPS /\ Mirror
           \/ "align" \in OPS /\ Align
           \/ "center" \in OPS /\ Center
           \/ "assign" \in OPS /\ Assign
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Laws of the specification *)
Rigid == /\ mo.a * mo.a + mo.c * mo.c = mo.q * mo.q
         /\ mo.b * mo.b + mo.e * mo.e = mo.q * mo.q
         /\ mo.a * mo.b + mo.c * mo.e = 0
DetM(m) == m.a * m.e - m.b * m.c
Last == hist'[Len(hist')]
Handed(m) == DetM(m) = m.q * m.q
Orientation == [][(Last.op = "mirror") <=> (Handed(mo) # Handed(mo'))]_vars
(* alignment puts the requested edge where it was requested                    *)
Aligned == [][Last.op = "align" =>
     Extents(P, mo')[IF Last.args[3] THEN Idx(Last.args[2]) ELSE Opp(Last.args[2])]
        = TargetEdge(Last.args[1], Last.args[2])]_vars
(* half turns and mirrors about the centre keep the bounding box               *)
KeepsBox == [][(\/ (Last.op = "mirror" /\ Last.args[2] = "center")
                \/ (Last.op = "rotate" /\ Last.args[1] = <<-1, 0, 1>> /\ Last.args[2] = "center"))
                => Extents(P, mo') = Extents(P, mo)]_vars
Emit == Len(hist) < MAXLEN \/ PrintT("@@" \o ToJson([sec |-> sec, hist |-> hist,
            cp0 |-> cp0]))
OpsAll == {"shift", "rotate", "mirror", "align", "center", "assign"}
Pool1 == {1}
PoolSome == 1..4
PoolAll == 1..Len(Pool)
Others1 == <<2, 3>>
=============================================================================
