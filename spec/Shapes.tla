------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* The parametric sections of the primitive, steel, timber, bridge and      *)
(* NASTRAN libraries, each described from its documented dimensions.         *)
(*                                                                          *)
(* A state is one section: a family and one value for each of its            *)
(* dimensions.  Lengths are whole numbers of a unit; coordinates are in half *)
(* units, or terms (as in Formulas) where they are irrational.  A loop of an *)
(* outline is a sequence of                                                  *)
(*    V(x, y)      a corner,                                                 *)
(*    R(x, y, r)   a corner rounded with radius r (an arc tangent to both    *)
(*                 sides, drawn with the section's number of points),        *)
(*    A(x, y, r, a, s)  an arc about (x, y) from angle a over s degrees,      *)
(*    E(a, b, n)   the n-gon inscribed in an ellipse, first corner at 0.      *)
(*                                                                          *)
(* Laws, checked in every state: the sharp outline is simple and holes lie    *)
(* inside it, its area is the sum of the parts the dimensions name, its       *)
(* extents are the stated width and depth, and every rounding fits.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fams,      \* the families explored
          Deep       \* TRUE: larger domains

VARIABLES fam, p
vars == <<fam, p>>

(* ------------------------------ terms ---------------------------------- *)
K(i) == <<"n", ToString(i)>>
S(s) == <<"n", s>>
Ad(a, b) == <<"add", a, b>>
Su(a, b) == <<"sub", a, b>>
Mu(a, b) == <<"mul", a, b>>
Di(a, b) == <<"div", a, b>>
Sq(a) == <<"sqrt", a>>
Sn(a) == <<"sind", a>>
Cs(a) == <<"cosd", a>>
Tn(a) == Di(Sn(a), Cs(a))
Ng(a) == Su(K(0), a)

(* ------------------------------ outlines ------------------------------- *)
V(x, y) == [c |-> "v", x |-> x, y |-> y, r |-> 0]
R(x, y, r) == [c |-> "v", x |-> x, y |-> y, r |-> 2 * r]
RT(x, y, r) == [c |-> "v", x |-> x, y |-> y, r |-> r]
A(x, y, r, a, s) == [c |-> "a", x |-> x, y |-> y, r |-> r, a |-> a, s |-> s]
E(a, b, n) == [c |-> "e", x |-> a, y |-> b, r |-> n]
Box(x0, y0, x1, y1) == <<V(x0, y0), V(x1, y0), V(x1, y1), V(x0, y1)>>

(* arguments *)
L(n, v) == [k |-> "len", n |-> n, v |-> v]       \* a length, in units
D(n, v) == [k |-> "deg", n |-> n, v |-> v]       \* an angle in degrees
C(n, v) == [k |-> "cnt", n |-> n, v |-> v]       \* a number of points or sides
AR(n, v) == [k |-> "area", n |-> n, v |-> v]
None(n) == [k |-> "none", n |-> n, v |-> 0]
LL(n, v) == [k |-> "lens", n |-> n, v |-> v]     \* a list of lengths
MM(n, v) == [k |-> "mats", n |-> n, v |-> v]     \* a list of materials
Dims(vs) == [q \in 1..Len(vs) |-> L("dim_" \o ToString(q), vs[q])]

NoParts == -1
(* fn: the function; args; nr: points per arc; ok: is it admissible;          *)
(* regions: each a loop and its holes, and a material (0: the one given);     *)
(* whole: coordinates are whole half units; area in square units (NoParts:    *)
(* not stated), wd / dp: width and depth in half units; rec: recovery points. *)
Rec(fn, args, nr, ok, rings, area, wd, dp, rec) ==
  [fn |-> fn, args |-> args, nr |-> nr, ok |-> ok, regions |-> <<[rings |-> rings, mat |-> 0]>>,
   whole |-> TRUE, area |-> area, wd |-> wd, dp |-> dp, rec |-> rec, scaled |-> TRUE]
Irr(fn, args, nr, ok, rings) ==
  [Rec(fn, args, nr, ok, rings, NoParts, 0, 0, <<>>) EXCEPT !.whole = FALSE]

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Z(s) == IF Deep THEN s \cup {x + 2 : x \in s} ELSE s
ZR == IF Deep THEN {0, 1, 2} ELSE {0, 1}
ZN == IF Deep THEN {2, 3, 8} ELSE {2, 5}

(* ----------------------------- primitives ------------------------------ *)
Prim(f, q) ==
  CASE f = "rect" ->
         Rec("rectangular_section", <<L("d", q[1]), L("b", q[2])>>, 1, TRUE,
             <<Box(0, 0, 2 * q[2], 2 * q[1])>>, q[1] * q[2], 2 * q[2], 2 * q[1], <<>>)
    [] f = "circ" ->
         Irr("circular_section", <<L("d", q[1]), C("n", q[2])>>, 1, TRUE, <<<<E(K(q[1]), K(q[1]), q[2])>>>>)
    [] f = "circA" ->
         LET rad == Mu(K(2), Sq(Di(K(2 * q[1]), Mu(K(q[2]), Sn(Di(K(360), K(q[2])))))))
         IN Irr("circular_section_by_area", <<AR("area", q[1]), C("n", q[2])>>, 1, TRUE,
                <<<<E(rad, rad, q[2])>>>>)
    [] f = "ell" ->
         Irr("elliptical_section", <<L("d_x", q[1]), L("d_y", q[2]), C("n", q[3])>>, 1, TRUE,
             <<<<E(K(q[1]), K(q[2]), q[3])>>>>)
    [] f = "tri" ->
         [Rec("triangular_section", <<L("b", q[1]), L("h", q[2])>>, 1, TRUE,
             <<<<V(0, 0), V(2 * q[1], 0), V(0, 2 * q[2])>>>>, NoParts, 2 * q[1], 2 * q[2], <<>>)
          EXCEPT !.area = IF (q[1] * q[2]) % 2 = 0 THEN (q[1] * q[2]) \div 2 ELSE NoParts]
    [] f = "triR" ->
         Irr("triangular_radius_section", <<L("b", q[1]), C("n_r", q[2])>>, q[2], TRUE,
             <<<<V(K(0), K(0)), A(K(2 * q[1]), K(2 * q[1]), K(2 * q[1]), K(270), K(-90))>>>>)
    [] f = "cruci" ->
         LET d == q[1]  b == q[2]  t == q[3]  r == q[4] IN
         Rec("cruciform_section", <<L("d", d), L("b", b), L("t", t), L("r", r), C("n_r", q[5])>>, q[5], TRUE,
             <<<<V(-t, -d), V(t, -d), R(t, -t, r), V(b, -t), V(b, t), R(t, t, r), V(t, d), V(-t, d),
                 R(-t, t, r), V(-b, t), V(-b, -t), R(-t, -t, r)>>>>,
             d * t + (b - t) * t, 2 * b, 2 * d, <<>>)

PrimDom(f) ==
  CASE f = "rect" -> Z({1, 2, 7}) \X Z({1, 3, 10})
    [] f = "circ" -> {1, 3, 10} \X Z({3, 4, 5, 16, 33})
    [] f = "circA" -> {1, 3, 20} \X Z({3, 4, 5, 16, 33})
    [] f = "ell" -> {1, 4, 9} \X {1, 5} \X Z({3, 4, 7, 20})
    [] f = "tri" -> Z({1, 2, 6}) \X Z({1, 3, 5})
    [] f = "triR" -> {1, 3, 8} \X Z({2, 3, 7})
    [] f = "cruci" -> {x \in Z({5, 8}) \X Z({4, 9}) \X {1, 2} \X {0, 1, 2} \X ZN :
                        2 * x[4] + x[3] <= Min(x[1], x[2])}

(* ------------------------------- steel --------------------------------- *)
(* a flange outstand of length x (half units) thickens from toe to root with  *)
(* the slope al; t is the thickness half way                                  *)
ToeY(t, x, al) == Su(K(2 * t), Mu(Di(K(x), K(2)), Tn(K(al))))
RootY(t, x, al) == Ad(K(2 * t), Mu(Di(K(x), K(2)), Tn(K(al))))
(* lip corners of cold-formed sections: radii limited by the lip              *)
LipO(l, ro) == Min(l, ro)
LipI(l, ro, t) == Max(LipO(l, ro) - t, 0)

Steel(f, q) ==
  CASE f = "chs" ->
         Irr("circular_hollow_section", <<L("d", q[1]), L("t", q[2]), C("n", q[3])>>, 1, TRUE,
             <<<<E(K(q[1]), K(q[1]), q[3])>>, <<E(K(q[1] - 2 * q[2]), K(q[1] - 2 * q[2]), q[3])>>>>)
    [] f = "ehs" ->
         Irr("elliptical_hollow_section", <<L("d_x", q[1]), L("d_y", q[2]), L("t", q[3]), C("n", q[4])>>, 1, TRUE,
             <<<<E(K(q[1]), K(q[2]), q[4])>>, <<E(K(q[1] - 2 * q[3]), K(q[2] - 2 * q[3]), q[4])>>>>)
    [] f = "rhs" ->       \* d b t r_out n_r r_in(-1: default) t_w(0: as t)
         LET d == q[1]  b == q[2]  t == q[3]  ro == q[4]
             w == IF q[7] = 0 THEN t ELSE q[7]
             ri == IF q[6] < 0 THEN Max(ro - Max(t, w), 0) ELSE q[6]
             in(r, x0, y0, x1, y1) == <<R(x0, y0, r), R(x1, y0, r), R(x1, y1, r), R(x0, y1, r)>>
         IN Rec("rectangular_hollow_section",
              <<L("d", d), L("b", b), L("t", t), L("r_out", ro), C("n_r", q[5]),
                IF q[6] < 0 THEN None("r_in") ELSE L("r_in", q[6]),
                IF q[7] = 0 THEN None("t_w") ELSE L("t_w", q[7])>>, q[5], TRUE,
              <<in(ro, 0, 0, 2 * b, 2 * d), in(ri, 2 * w, 2 * t, 2 * b - 2 * w, 2 * d - 2 * t)>>,
              2 * b * t + 2 * (d - 2 * t) * w, 2 * b, 2 * d, <<>>)
    [] f = "poly" ->      \* d t n_sides r_in n_r rot
         LET d == q[1]  t == q[2]  n == q[3]
             al == Di(K(360), K(n))
             half == Di(K(180), K(n))
             ain == Su(Mu(K(d), Cs(half)), K(2 * t))      \* inner apothem, half units
             ri == <<"min", K(2 * q[4]), ain>>
             ro == IF q[4] = 0 THEN K(0) ELSE Ad(ri, K(2 * t))
             at(rad, r, m) == LET th == Ad(Su(Ad(K(q[6]), half), K(90)), Mu(K(m), al))
                              IN RT(Mu(rad, Cs(th)), Mu(rad, Sn(th)), r)
             loop(rad, r) == [m \in 1..n |-> at(rad, r, m)]
         IN IF n < 3 THEN Irr("polygon_hollow_section",
              <<L("d", d), L("t", t), C("n_sides", n)>>, 1, FALSE, <<>>)
            ELSE Irr("polygon_hollow_section",
              <<L("d", d), L("t", t), C("n_sides", n), L("r_in", q[4]), C("n_r", q[5]), D("rot", q[6])>>, q[5],
              TRUE, <<loop(K(d), ro), loop(Di(ain, Cs(half)), ri)>>)
    [] f = "i" ->
         LET d == q[1]  b == q[2]  tf == q[3]  tw == q[4]  r == q[5] IN
         Rec("i_section", <<L("d", d), L("b", b), L("t_f", tf), L("t_w", tw), L("r", r), C("n_r", q[6])>>, q[6], TRUE,
           <<<<V(0, 0), V(2 * b, 0), V(2 * b, 2 * tf), R(b + tw, 2 * tf, r), R(b + tw, 2 * (d - tf), r),
               V(2 * b, 2 * (d - tf)), V(2 * b, 2 * d), V(0, 2 * d), V(0, 2 * (d - tf)), R(b - tw, 2 * (d - tf), r),
               R(b - tw, 2 * tf, r), V(0, 2 * tf)>>>>,
           2 * b * tf + (d - 2 * tf) * tw, 2 * b, 2 * d, <<>>)
    [] f = "mono" ->      \* d b_t b_b t_ft t_fb t_w r n_r
         LET d == q[1]  bt == q[2]  bb == q[3]  tt == q[4]  tb == q[5]  tw == q[6]  r == q[7]
             x == Max(bt, bb) IN
         Rec("mono_i_section", <<L("d", d), L("b_t", bt), L("b_b", bb), L("t_ft", tt), L("t_fb", tb), L("t_w", tw),
                                 L("r", r), C("n_r", q[8])>>, q[8], TRUE,
           <<<<V(x - bb, 0), V(x + bb, 0), V(x + bb, 2 * tb), R(x + tw, 2 * tb, r), R(x + tw, 2 * (d - tt), r),
               V(x + bt, 2 * (d - tt)), V(x + bt, 2 * d), V(x - bt, 2 * d), V(x - bt, 2 * (d - tt)),
               R(x - tw, 2 * (d - tt), r), R(x - tw, 2 * tb, r), V(x - bb, 2 * tb)>>>>,
           bt * tt + bb * tb + (d - tt - tb) * tw, 2 * Max(bt, bb), 2 * d, <<>>)
    [] f = "tapI" ->      \* d b t_f t_w r_r r_f alpha n_r
         LET d == q[1]  b == q[2]  tf == q[3]  tw == q[4]  rr == q[5]  rf == q[6]
             ty == ToeY(tf, b - tw, q[7])
             ry == RootY(tf, b - tw, q[7])
             up(y) == Su(K(2 * d), y)
             o == K(0)  w == K(2 * b)  lo == K(b - tw)  hi == K(b + tw) IN
         Irr("tapered_flange_i_section", <<L("d", d), L("b", b), L("t_f", tf), L("t_w", tw), L("r_r", rr), L("r_f", rf),
                                           D("alpha", q[7]), C("n_r", q[8])>>, q[8], TRUE,
           <<<<V(o, o), V(w, o), R(w, ty, rf), R(hi, ry, rr), R(hi, up(ry), rr), R(w, up(ty), rf), V(w, K(2 * d)),
               V(o, K(2 * d)), R(o, up(ty), rf), R(lo, up(ry), rr), R(lo, ry, rr), R(o, ty, rf)>>>>)
    [] f = "chan" ->
         LET d == q[1]  b == q[2]  tf == q[3]  tw == q[4]  r == q[5] IN
         Rec("channel_section", <<L("d", d), L("b", b), L("t_f", tf), L("t_w", tw), L("r", r), C("n_r", q[6])>>, q[6],
           TRUE,
           <<<<V(0, 0), V(2 * b, 0), V(2 * b, 2 * tf), R(2 * tw, 2 * tf, r), R(2 * tw, 2 * (d - tf), r),
               V(2 * b, 2 * (d - tf)), V(2 * b, 2 * d), V(0, 2 * d)>>>>,
           2 * b * tf + (d - 2 * tf) * tw, 2 * b, 2 * d, <<>>)
    [] f = "tapC" ->
         LET d == q[1]  b == q[2]  tf == q[3]  tw == q[4]  rr == q[5]  rf == q[6]
             ty == ToeY(tf, 2 * (b - tw), q[7])
             ry == RootY(tf, 2 * (b - tw), q[7])
             up(y) == Su(K(2 * d), y)
             o == K(0)  w == K(2 * b)  hi == K(2 * tw) IN
         Irr("tapered_flange_channel", <<L("d", d), L("b", b), L("t_f", tf), L("t_w", tw), L("r_r", rr), L("r_f", rf),
                                         D("alpha", q[7]), C("n_r", q[8])>>, q[8], TRUE,
           <<<<V(o, o), V(w, o), R(w, ty, rf), R(hi, ry, rr), R(hi, up(ry), rr), R(w, up(ty), rf), V(w, K(2 * d)),
               V(o, K(2 * d))>>>>)
    [] f = "tee" ->
         LET d == q[1]  b == q[2]  tf == q[3]  tw == q[4]  r == q[5] IN
         Rec("tee_section", <<L("d", d), L("b", b), L("t_f", tf), L("t_w", tw), L("r", r), C("n_r", q[6])>>, q[6], TRUE,
           <<<<V(b - tw, 0), V(b + tw, 0), R(b + tw, 2 * (d - tf), r), V(2 * b, 2 * (d - tf)), V(2 * b, 2 * d),
               V(0, 2 * d), V(0, 2 * (d - tf)), R(b - tw, 2 * (d - tf), r)>>>>,
           b * tf + (d - tf) * tw, 2 * b, 2 * d, <<>>)
    [] f = "angle" ->
         LET d == q[1]  b == q[2]  t == q[3]  rr == q[4]  rt == q[5] IN
         Rec("angle_section", <<L("d", d), L("b", b), L("t", t), L("r_r", rr), L("r_t", rt), C("n_r", q[6])>>, q[6],
           rt <= t,
           <<<<V(0, 0), V(2 * b, 0), R(2 * b, 2 * t, rt), R(2 * t, 2 * t, rr), R(2 * t, 2 * d, rt), V(0, 2 * d)>>>>,
           b * t + (d - t) * t, 2 * b, 2 * d, <<>>)
    [] f = "cee" ->       \* d b l t r_out n_r
         LET d == q[1]  b == q[2]  l == q[3]  t == q[4]  ro == q[5]
             ri == Max(ro - t, 0)
             lip(y, s) == <<R(2 * b, y, LipO(l, ro)), V(2 * b, y + 2 * s * l), V(2 * (b - t), y + 2 * s * l),
                            R(2 * (b - t), y + 2 * s * t, LipI(l, ro, t))>>
             flat(y, s) == <<V(2 * b, y), V(2 * b, y + 2 * s * t)>>
             end(y, s) == IF l > t THEN lip(y, s) ELSE flat(y, s)
             rev(u) == [m \in 1..Len(u) |-> u[Len(u) + 1 - m]]
         IN Rec("cee_section", <<L("d", d), L("b", b), L("l", l), L("t", t), L("r_out", ro), C("n_r", q[6])>>, q[6],
              TRUE,
              <<<<R(0, 0, ro)>> \o end(0, 1) \o <<R(2 * t, 2 * t, ri), R(2 * t, 2 * (d - t), ri)>>
                \o rev(end(2 * d, -1)) \o <<R(0, 2 * d, ro)>>>>,
              2 * b * t + (d - 2 * t) * t + 2 * (IF l > t THEN (l - t) * t ELSE 0), 2 * b, 2 * d, <<>>)
    [] f = "zed" ->       \* d b_l b_r l t r_out n_r
         LET d == q[1]  bl == q[2]  br == q[3]  l == q[4]  t == q[5]  ro == q[6]
             ri == Max(ro - t, 0)
             half(b, sx, x0, y0) ==   \* a flange of width b from the outside of the web corner (x0, y0)
               IF l > t
               THEN <<R(x0, y0, ro), R(x0 + 2 * sx * b, y0, LipO(l, ro)), V(x0 + 2 * sx * b, y0 + 2 * sx * l),
                      V(x0 + 2 * sx * (b - t), y0 + 2 * sx * l),
                      R(x0 + 2 * sx * (b - t), y0 + 2 * sx * t, LipI(l, ro, t)), R(x0 + 2 * sx * t, y0 + 2 * sx * t, ri)>>
               ELSE <<R(x0, y0, ro), V(x0 + 2 * sx * b, y0), V(x0 + 2 * sx * b, y0 + 2 * sx * t),
                      R(x0 + 2 * sx * t, y0 + 2 * sx * t, ri)>>
         IN Rec("zed_section", <<L("d", d), L("b_l", bl), L("b_r", br), L("l", l), L("t", t), L("r_out", ro),
                                 C("n_r", q[7])>>, q[7], TRUE,
              <<half(br, 1, 0, 0) \o half(bl, -1, 2 * t, 2 * d)>>,
              bl * t + br * t + (d - 2 * t) * t + 2 * (IF l > t THEN (l - t) * t ELSE 0),
              2 * (bl + br - t), 2 * d, <<>>)
    [] f = "boxg" ->      \* d b_t b_b t_ft t_fb t_w
         LET d == q[1]  bt == q[2]  bb == q[3]
             xc == K(Max(bt, bb))
             hw(y) == Ad(K(bb), Di(K((bt - bb) * y), K(d)))          \* half width at height y
             side == Sq(Ad(K(4 * d * d), K((bt - bb) * (bt - bb))))    \* 2 x the slanted side, units
             web == Di(Mu(K(q[6]), side), K(d))                        \* web, along a level (half units)
             y1 == q[5]  y2 == d - q[4]
             pt(y, s) == LET h == Su(hw(y), web) IN V(IF s > 0 THEN Ad(xc, h) ELSE Su(xc, h), K(2 * y))
         IN Irr("box_girder_section", <<L("d", d), L("b_t", bt), L("b_b", bb), L("t_ft", q[4]), L("t_fb", q[5]),
                                        L("t_w", q[6])>>, 1, TRUE,
              <<<<V(Su(xc, K(bb)), K(0)), V(Ad(xc, K(bb)), K(0)), V(Ad(xc, K(bt)), K(2 * d)), V(Su(xc, K(bt)), K(2 * d))>>,
                <<pt(y1, -1), pt(y1, 1), pt(y2, 1), pt(y2, -1)>>>>)
    [] f = "bulb" ->      \* d b t r n_r d_b(0: default)
         LET d == q[1]  b == q[2]  t == q[3]  r == q[4]
             db == IF q[6] = 0 THEN Ad(Ad(Mu(K(2 * r), Tn(K(30))), K(2 * r)), Mu(K(2 * b), Tn(K(30)))) ELSE K(2 * q[6])
             cx == K(t + 2 * r)
             cy == Su(Su(K(2 * d), db), Di(K(2 * r), Sq(K(3))))
             ex == K(2 * b + t - 2 * r)
             ey == K(2 * d - 2 * r)
         IN Irr("bulb_section", <<L("d", d), L("b", b), L("t", t), L("r", r), C("n_r", q[5]),
                                  IF q[6] = 0 THEN None("d_b") ELSE L("d_b", q[6])>>, q[5], TRUE,
              <<<<V(K(-t), K(0)), V(K(t), K(0)), A(cx, cy, K(2 * r), K(180), K(-60)), A(ex, ey, K(2 * r), K(-60), K(60)),
                  A(ex, ey, K(2 * r), K(0), K(90)), V(K(-t), K(2 * d))>>>>)

SteelDom(f) ==
  CASE f = "chs" -> {x \in {3, 8, 20} \X {1, 2} \X Z({3, 4, 9, 24}) : 2 * x[2] < x[1]}
    [] f = "ehs" -> {x \in {5, 9} \X {6, 8, 20} \X {1, 2} \X Z({4, 7, 24}) : 2 * x[3] < Min(x[1], x[2])}
    [] f = "rhs" -> {x \in Z({6, 9}) \X Z({5, 10}) \X {1, 2} \X {0, 1, 2, 3} \X ZN \X {-1, 0, 1, 2} \X {0, 1, 2} :
                       LET w == IF x[7] = 0 THEN x[3] ELSE x[7]
                           ri == IF x[6] < 0 THEN Max(x[4] - Max(x[3], w), 0) ELSE x[6]
                           a == x[4] - w - ri  b == x[4] - x[3] - ri
                           sq(u) == IF u > 0 THEN u * u ELSE 0
                       IN /\ 2 * x[4] <= Min(x[1], x[2])
                          /\ 2 * x[3] < x[1] /\ 2 * w < x[2]
                          /\ 2 * ri <= Min(x[1] - 2 * x[3], x[2] - 2 * w)
                          /\ w + x[3] + ri > x[4]
                          /\ x[4] > ri => sq(a) + sq(b) < (x[4] - ri) * (x[4] - ri)}
    [] f = "poly" -> {x \in {20, 31} \X {1, 2} \X {1, 2, 3, 4, 5, 6, 8, 12} \X {0, 1, 2, 99} \X ZN \X {0, 15, -40} :
                        x[3] < 3 => (x[4] = 0 /\ x[6] = 0)}
    [] f = "i" -> {x \in Z({7, 10}) \X Z({6, 9}) \X {1, 2} \X {1, 2} \X {0, 1, 2} \X ZN :
                     2 * x[5] <= Min(x[1] - 2 * x[3], x[2] - x[4])}
    [] f = "mono" -> {x \in Z({8, 13}) \X {5, 6, 9} \X {5, 7} \X {1, 2} \X {1, 3} \X {1, 2} \X ZR \X ZN :
                     2 * x[7] <= Min(x[1] - x[4] - x[5], Min(x[2], x[3]) - x[6])}
    [] f = "tapI" -> Z({14, 19}) \X {12, 13} \X {2, 3} \X {1, 2} \X {0, 1, 2} \X {0, 1} \X {0, 5, 14} \X ZN
    [] f = "chan" -> {x \in Z({7, 10}) \X Z({5, 8}) \X {1, 2} \X {1, 2} \X {0, 1, 2} \X ZN :
                     2 * x[5] <= x[1] - 2 * x[3] /\ x[5] <= x[2] - x[4]}
    [] f = "tapC" -> Z({14, 19}) \X {7, 8} \X {2, 3} \X {1, 2} \X {0, 1, 2} \X {0, 1} \X {0, 5, 14} \X ZN
    [] f = "tee" -> {x \in Z({6, 9}) \X Z({6, 9}) \X {1, 2} \X {1, 2} \X {0, 1, 2} \X ZN :
                     x[5] <= x[1] - x[3] /\ 2 * x[5] <= x[2] - x[4]}
    [] f = "angle" -> {x \in Z({7, 10}) \X Z({6, 8}) \X {1, 2} \X {0, 1, 2} \X {0, 1, 2, 3} \X ZN :
                     x[4] + x[5] <= Min(x[1], x[2]) - x[3]}
    [] f = "cee" -> {x \in Z({12, 15}) \X Z({8, 11}) \X {0, 1, 2, 3, 4} \X {1, 2} \X {0, 1, 2, 3} \X ZN :
                     x[3] > x[4] \/ x[3] <= x[5]}
    [] f = "zed" -> {x \in {12, 15} \X Z({8}) \X Z({8, 11}) \X {0, 1, 2, 3, 4} \X {1, 2} \X {0, 1, 2, 3} \X ZN :
                     x[4] > x[5] \/ x[4] <= x[6]}
    [] f = "boxg" -> {6, 9} \X {12, 20} \X {10, 12, 17} \X {1, 2} \X {1, 2} \X {1, 2}
    [] f = "bulb" -> {x \in {20, 31} \X {5, 6} \X {1, 2} \X (ZR \cup {2}) \X ZN \X {0, 5, 6} : TRUE}

(* -------------------------- timber and bridge -------------------------- *)
Timber(f, q) ==        \* q: depths of the layers from the top, then the width
  LET n == Len(q) - 1
      RECURSIVE top(_)
      top(m) == IF m = 0 THEN 0 ELSE top(m - 1) + q[m]
      lay(m) == [rings |-> <<Box(0, -2 * top(m), 2 * q[n + 1], -2 * top(m - 1))>>, mat |-> 1 + ((m - 1) % 2)]
  IN [Rec("clt_rectangular_section", <<LL("d", SubSeq(q, 1, n)), MM("layer_mat", [m \in 1..n |-> 1 + ((m - 1) % 2)]),
                                       L("b", q[n + 1])>>, 1, TRUE, <<>>, top(n) * q[n + 1], 2 * q[n + 1], 2 * top(n), <<>>)
      EXCEPT !.regions = [m \in 1..n |-> lay(m)]]
TimberDom == ({1, 3} \X {5}) \cup ({1, 2} \X {1, 3} \X {7}) \cup ({1, 2} \X {2, 3} \X {1, 4} \X {9})
             \cup ({1, 2} \X {1, 3} \X {2} \X {1, 2} \X {5} \X {6})

(* AS 5100.5 Appendix D                                                       *)
IGird == << <<200, 300, 120, 100, 40, 420, 90, 100>>, <<350, 450, 150, 100, 100, 450, 150, 100>>,
            <<450, 500, 150, 130, 150, 545, 175, 150>>, <<500, 650, 150, 150, 175, 650, 250, 175>> >>
STd == <<675, 925, 1125, 1425, 1725>>
STb == <<240, 240, 260, 260, 325>>
STw == <<100, 100, 100, 100, 120>>

Bridge(f, q) ==
  CASE f = "igird" ->
         IF q[1] \notin 1..4
         THEN [Irr("i_girder_section", <<C("girder_type", q[1])>>, 1, FALSE, <<>>) EXCEPT !.scaled = FALSE]
         ELSE LET g == IGird[q[1]]
                  bt == g[1]  bb == g[2]  bw == g[3]
                  y1 == -2 * g[4]  y2 == y1 - 2 * g[5]  y3 == y2 - 2 * g[6]  y4 == y3 - 2 * g[7]  y5 == y4 - 2 * g[8]
              IN [Rec("i_girder_section", <<C("girder_type", q[1])>>, 1, TRUE,
                   <<<<V(bt, 0), V(bt, y1), V(bw, y2), V(bw, y3), V(bb, y4), V(bb, y5), V(-bb, y5), V(-bb, y4),
                       V(-bw, y3), V(-bw, y2), V(-bt, y1), V(-bt, 0)>>>>,
                   bt * g[4] + ((bt + bw) * g[5]) \div 2 + bw * g[6] + ((bb + bw) * g[7]) \div 2 + bb * g[8],
                   2 * Max(bt, bb), -y5, <<>>) EXCEPT !.scaled = FALSE]
    [] f = "supert" ->    \* type subtype w t_w(0: standard) t_f
         IF q[1] \notin 1..5 \/ q[2] \notin 1..2 \/ (q[1] = 5 /\ q[2] = 1)
         THEN [Irr("super_t_girder_section", <<C("girder_type", q[1]), C("girder_subtype", q[2])>>, 1, FALSE, <<>>)
               EXCEPT !.scaled = FALSE]
         ELSE LET d == STd[q[1]]
                  tb == STb[q[1]]
                  tw == IF q[4] = 0 THEN STw[q[1]] ELSE q[4]
                  tf == q[5]
                  m == S("10.556")                           \* slope of the webs (rise over run)
                  g == IF q[2] = 1 THEN S("5") ELSE S("5.347")  \* fall of the floor of the void (run over rise)
                  w0 == IF q[2] = 1 THEN 920 ELSE 1027          \* nominal width over the webs at the flange soffit
                  hyp == Sq(Ad(K(1), Mu(m, m)))
                  \* the outer face of the web: 75 down from the soffit it is set in by 75/hyp, then slopes by 1/m
                  xf == Su(K(w0), Di(K(150), hyp))
                  \* inner face: web t_w thick (level measure t_w m/hyp), at the recess 25 below the top of the flange
                  xr == Ad(Su(K(w0), Di(Mu(K(2 * tw), m), hyp)), Di(K(2 * (tf - 25)), m))
                  bot == Su(xf, Di(K(2 * d), m))
                  \* the inner face meets the floor of the void, which rises from (0, -(d - t_b)) by 1/g
                  \*   x = xr - (yr - y)/m   and   y = y0 + x/g
                  y0 == K(-2 * (d - tb))
                  yr == K(2 * (tf - 25))
                  yi == Di(Ad(Mu(g, y0), Su(xr, Di(yr, m))), Su(g, Di(K(1), m)))
                  xi == Mu(g, Su(yi, y0))
                  half == <<[x |-> xr, y |-> yr], [x |-> Ad(xr, K(50)), y |-> yr], [x |-> Ad(xr, K(50)), y |-> K(2 * tf)],
                            [x |-> K(q[3]), y |-> K(2 * tf)], [x |-> K(q[3]), y |-> K(26)], [x |-> K(q[3] - 26), y |-> K(0)],
                            [x |-> K(w0 + 200), y |-> K(0)], [x |-> xf, y |-> K(-150)],
                            [x |-> Ad(bot, Di(K(26), m)), y |-> K(-2 * (d - 13))],
                            [x |-> Su(bot, K(26)), y |-> K(-2 * d)]>>
                  n == Len(half)
              IN [Irr("super_t_girder_section", <<C("girder_type", q[1]), C("girder_subtype", q[2]), L("w", q[3]),
                        IF q[4] = 0 THEN None("t_w") ELSE L("t_w", q[4]), L("t_f", q[5])>>, 1, TRUE,
                   << [k \in 1..n |-> V(half[k].x, half[k].y)]
                      \o [k \in 1..n |-> V(Ng(half[n + 1 - k].x), half[n + 1 - k].y)]
                      \o <<V(Ng(xi), yi), V(K(0), y0), V(xi, yi)>> >>) EXCEPT !.scaled = FALSE]

BridgeDom(f) ==
  CASE f = "igird" -> {<<k>> : k \in -1..6}
    [] f = "supert" -> {x \in (0..6) \X (0..3) \X {1500, 2100, 2480} \X {0, 110, 125} \X {75, 90} :
                          (x[1] \in 1..5 /\ x[2] \in 1..2) \/ (x[3] = 1500 /\ x[4] = 0 /\ x[5] = 75)}

(* ------------------------------- NASTRAN ------------------------------- *)
(* coordinates about the documented origin; the recovery points are the       *)
(* named points C, D, E, F of the section                                     *)
Pt(x, y) == <<x, y>>
Corners(x0, y0, x1, y1) == <<Pt(x1, y1), Pt(x1, y0), Pt(x0, y0), Pt(x0, y1)>>
Nas(f, q) ==
  CASE f = "n_bar" ->
         Rec("nastran_bar", Dims(q), 1, TRUE, <<Box(-q[1], -q[2], q[1], q[2])>>, q[1] * q[2], 2 * q[1], 2 * q[2],
             Corners(-q[1], -q[2], q[1], q[2]))
    [] f = "n_box" ->
         Rec("nastran_box", Dims(q), 1, 2 * q[4] < q[1] /\ 2 * q[3] < q[2],
             <<Box(-q[1], -q[2], q[1], q[2]),
               Box(-q[1] + 2 * q[4], -q[2] + 2 * q[3], q[1] - 2 * q[4], q[2] - 2 * q[3])>>,
             2 * q[1] * q[3] + 2 * (q[2] - 2 * q[3]) * q[4], 2 * q[1], 2 * q[2], Corners(-q[1], -q[2], q[1], q[2]))
    [] f = "n_box1" ->    \* top 3, bottom 4, left 5, right 6
         Rec("nastran_box1", Dims(q), 1, q[5] + q[6] < q[1] /\ q[3] + q[4] < q[2],
             <<Box(-q[1], -q[2], q[1], q[2]),
               Box(-q[1] + 2 * q[5], -q[2] + 2 * q[4], q[1] - 2 * q[6], q[2] - 2 * q[3])>>,
             q[1] * (q[3] + q[4]) + (q[2] - q[3] - q[4]) * (q[5] + q[6]), 2 * q[1], 2 * q[2],
             Corners(-q[1], -q[2], q[1], q[2]))
    [] f = "n_chan" ->    \* web's middle at the origin
         LET x0 == -q[3]  x1 == 2 * q[1] - q[3]  xw == q[3]  y == q[2]  yf == q[2] - 2 * q[4] IN
         Rec("nastran_chan", Dims(q), 1, 2 * q[4] < q[2] /\ q[3] < q[1],
             <<<<V(x0, -y), V(x1, -y), V(x1, -yf), V(xw, -yf), V(xw, yf), V(x1, yf), V(x1, y), V(x0, y)>>>>,
             2 * q[1] * q[4] + (q[2] - 2 * q[4]) * q[3], 2 * q[1], 2 * q[2], Corners(x0, -y, x1, y))
    [] f = "n_chan1" ->   \* 1 clear flange, 2 web, 3 clear depth, 4 depth
         LET x0 == -q[2]  x1 == q[2] + 2 * q[1] IN
         Rec("nastran_chan1", Dims(q), 1, q[4] > q[3],
             <<<<V(x0, -q[4]), V(x1, -q[4]), V(x1, -q[3]), V(q[2], -q[3]), V(q[2], q[3]), V(x1, q[3]), V(x1, q[4]),
                 V(x0, q[4])>>>>,
             q[2] * q[4] + q[1] * (q[4] - q[3]), 2 * (q[1] + q[2]), 2 * q[4], Corners(x0, -q[4], x1, q[4]))
    [] f = "n_chan2" ->   \* the web lies at the bottom
         LET y0 == -q[2]  y1 == 2 * q[3] - q[2]  x == q[4]  xi == q[4] - 2 * q[1] IN
         Rec("nastran_chan2", Dims(q), 1, q[4] > 2 * q[1] /\ q[3] > q[2],
             <<<<V(-x, y0), V(x, y0), V(x, y1), V(xi, y1), V(xi, q[2]), V(-xi, q[2]), V(-xi, y1), V(-x, y1)>>>>,
             q[4] * q[2] + 2 * q[1] * (q[3] - q[2]), 2 * q[4], 2 * q[3], Corners(-x, y0, x, y1))
    [] f = "n_cross" ->   \* 1 both outstands, 2 upright's thickness, 3 depth, 4 bar's thickness
         LET w == q[1] + q[2] IN
         Rec("nastran_cross", Dims(q), 1, q[4] < q[3],
             <<<<V(-q[2], -q[3]), V(q[2], -q[3]), V(q[2], -q[4]), V(w, -q[4]), V(w, q[4]), V(q[2], q[4]), V(q[2], q[3]),
                 V(-q[2], q[3]), V(-q[2], q[4]), V(-w, q[4]), V(-w, -q[4]), V(-q[2], -q[4])>>>>,
             q[2] * q[3] + q[1] * q[4], 2 * w, 2 * q[3], <<Pt(0, q[3]), Pt(w, 0), Pt(0, -q[3]), Pt(-w, 0)>>)
    [] f = "n_fcross" ->  \* 1 depth 2 width 3 upright 4 bar 5,6 upper and lower flanges 7,8 side flanges
         LET d == q[1]  w == q[2]  u == q[3]  b == q[4]  fw == q[5]  fy == q[1] - 2 * q[6]  gh == q[7]
             gx == q[2] - 2 * q[8] IN
         Rec("nastran_fcross", Dims(q), 1,
             q[5] > q[3] /\ q[7] > q[4] /\ q[7] < q[1] /\ q[5] < q[2] /\ 2 * q[8] < q[2] - q[3] /\ 2 * q[6] < q[1] - q[4],
             <<<<V(u, -b), V(gx, -b), V(gx, -gh), V(w, -gh), V(w, gh), V(gx, gh), V(gx, b), V(u, b), V(u, fy), V(fw, fy),
                 V(fw, d), V(-fw, d), V(-fw, fy), V(-u, fy), V(-u, b), V(-gx, b), V(-gx, gh), V(-w, gh), V(-w, -gh),
                 V(-gx, -gh), V(-gx, -b), V(-u, -b), V(-u, -fy), V(-fw, -fy), V(-fw, -d), V(fw, -d), V(fw, -fy), V(u, -fy)>>>>,
             2 * q[5] * q[6] + 2 * q[7] * q[8] + (q[1] - 2 * q[6]) * q[3] + (q[2] - 2 * q[8]) * q[4] - q[3] * q[4],
             2 * q[2], 2 * q[1], <<Pt(0, d), Pt(w, 0), Pt(0, -d), Pt(-w, 0)>>)
    [] f = "n_dbox" ->    \* 3 width of the left box to the middle wall's centre; walls 4 5 6; 7,8 left; 9,10 right
         LET w == q[1]  d == q[2]  m == 2 * q[3] - q[1] IN
         Rec("nastran_dbox", Dims(q), 1,
             q[4] + q[5] + q[6] < q[1] /\ 2 * q[4] + q[5] < 2 * q[3] /\ q[7] + q[8] < q[2] /\ q[9] + q[10] < q[2],
             <<Box(-w, -d, w, d), Box(-w + 2 * q[4], -d + 2 * q[8], m - q[5], d - 2 * q[7]),
               Box(m + q[5], -d + 2 * q[10], w - 2 * q[6], d - 2 * q[9])>>,
             NoParts, 2 * q[1], 2 * q[2], Corners(-w, -d, w, d))
    [] f = "n_gbox" ->    \* 3 top, 4 bottom flange, 5 webs, 6 between the webs
         LET w == q[1]  d == q[2]  yt == q[2] - 2 * q[3]  yb == -q[2] + 2 * q[4]  xo == q[6] + 2 * q[5] IN
         Rec("nastran_gbox", Dims(q), 1, q[3] + q[4] < q[2] /\ 2 * q[5] + q[6] < q[1],
             <<<<V(-w, -d), V(w, -d), V(w, yb), V(xo, yb), V(xo, yt), V(w, yt), V(w, d), V(-w, d), V(-w, yt), V(-xo, yt),
                 V(-xo, yb), V(-w, yb)>>, Box(-q[6], yb, q[6], yt)>>,
             q[1] * (q[3] + q[4]) + 2 * q[5] * (q[2] - q[3] - q[4]), 2 * q[1], 2 * q[2], Corners(-w, -d, w, d))
    [] f = "n_h" ->       \* 1 between the flanges, 2 both flanges, 3 depth, 4 web
         LET w == q[1] + q[2] IN
         Rec("nastran_h", Dims(q), 1, q[4] < q[3],
             <<<<V(-w, -q[3]), V(-q[1], -q[3]), V(-q[1], -q[4]), V(q[1], -q[4]), V(q[1], -q[3]), V(w, -q[3]), V(w, q[3]),
                 V(q[1], q[3]), V(q[1], q[4]), V(-q[1], q[4]), V(-q[1], q[3]), V(-w, q[3])>>>>,
             q[2] * q[3] + q[1] * q[4], 2 * w, 2 * q[3], Corners(-w, -q[3], w, q[3]))
    [] f = "n_hat" ->     \* 1 depth 2 thickness 3 top width 4 feet
         LET yt == q[2]  yb == q[2] - 2 * q[1]  w == q[3] + 2 * q[4]  x == q[3]  xi == q[3] - 2 * q[2] IN
         Rec("nastran_hat", Dims(q), 1, 2 * q[2] < q[1],
             <<<<V(-w, yb), V(-xi, yb), V(-xi, -q[2]), V(xi, -q[2]), V(xi, yb), V(w, yb), V(w, yb + 2 * q[2]),
                 V(x, yb + 2 * q[2]), V(x, yt), V(-x, yt), V(-x, yb + 2 * q[2]), V(-w, yb + 2 * q[2])>>>>,
             q[3] * q[2] + 2 * q[2] * (q[1] - q[2]) + 2 * q[4] * q[2], 2 * w, 2 * q[1],
             \* the outer corners of the top, and the feet's ends half way up them
             <<Pt(x, yt), Pt(w, yb + q[2]), Pt(-w, yb + q[2]), Pt(-x, yt)>>)
    [] f = "n_hat1" ->    \* 1 width 2 depth 3 top width 4 stiffener 5 plate
         LET w == q[1]  y0 == 2 * q[5]  y1 == 2 * q[2]  t == 2 * q[4]  x == q[3]  xi == q[3] - 2 * q[4] IN
         [Rec("nastran_hat1", Dims(q), 1, 2 * q[4] + q[5] < q[2] /\ q[3] < q[1], <<>>,
             q[1] * q[5] + q[3] * q[4] + 2 * q[4] * (q[2] - q[5] - q[4]) + (q[1] - q[3]) * q[4], 2 * w, 2 * q[2],
             <<Pt(-q[1], 0), Pt(q[1], 0), Pt(-q[3], y1), Pt(q[3], y1)>>)
          EXCEPT !.regions = << [rings |-> <<Box(-w, 0, w, y0)>>, mat |-> 0],
             [rings |-> <<<<V(-w, y0), V(-xi, y0), V(-xi, y1 - t), V(xi, y1 - t), V(xi, y0), V(w, y0), V(w, y0 + t),
                 V(x, y0 + t), V(x, y1), V(-x, y1), V(-x, y0 + t), V(-w, y0 + t)>>>>, mat |-> 0] >>]
    [] f = "n_hexa" ->
         LET x == q[2] - 2 * q[1] IN
         Rec("nastran_hexa", Dims(q), 1, q[2] > q[1],
             <<<<V(-x, -q[3]), V(x, -q[3]), V(q[2], 0), V(x, q[3]), V(-x, q[3]), V(-q[2], 0)>>>>,
             (q[2] - q[1]) * q[3], 2 * q[2], 2 * q[3], <<Pt(0, q[3]), Pt(0, -q[3]), Pt(q[2], 0), Pt(-q[2], 0)>>)
    [] f = "n_i" ->       \* 1 depth 2 bottom width 3 top width 4 web 5 bottom 6 top thickness
         LET y0 == -q[5]  y1 == q[5]  y2 == 2 * q[1] - q[5] - 2 * q[6]  y3 == 2 * q[1] - q[5] IN
         Rec("nastran_i", Dims(q), 1, q[5] + q[6] < q[1] /\ q[4] < q[3] /\ q[4] < q[2],
             <<<<V(-q[2], y0), V(q[2], y0), V(q[2], y1), V(q[4], y1), V(q[4], y2), V(q[3], y2), V(q[3], y3), V(-q[3], y3),
                 V(-q[3], y2), V(-q[4], y2), V(-q[4], y1), V(-q[2], y1)>>>>,
             q[2] * q[5] + q[3] * q[6] + (q[1] - q[5] - q[6]) * q[4], 2 * Max(q[2], q[3]), 2 * q[1],
             <<Pt(q[3], y3), Pt(q[2], y0), Pt(-q[2], y0), Pt(-q[3], y3)>>)
    [] f = "n_i1" ->      \* 1 both outstands 2 web 3 clear depth 4 depth
         LET w == q[1] + q[2] IN
         Rec("nastran_i1", Dims(q), 1, q[4] > q[3],
             <<<<V(-w, -q[4]), V(w, -q[4]), V(w, -q[3]), V(q[2], -q[3]), V(q[2], q[3]), V(w, q[3]), V(w, q[4]), V(-w, q[4]),
                 V(-w, q[3]), V(-q[2], q[3]), V(-q[2], -q[3]), V(-w, -q[3])>>>>,
             (q[1] + q[2]) * (q[4] - q[3]) + q[2] * q[3], 2 * w, 2 * q[4], Corners(-w, -q[4], w, q[4]))
    [] f = "n_l" ->       \* 1 width 2 depth 3 flange 4 web
         LET x0 == -q[4]  x1 == 2 * q[1] - q[4]  y0 == -q[3]  y1 == 2 * q[2] - q[3] IN
         Rec("nastran_l", Dims(q), 1, q[4] < q[1] /\ q[3] < q[2],
             <<<<V(x0, y0), V(x1, y0), V(x1, q[3]), V(q[4], q[3]), V(q[4], y1), V(x0, y1)>>>>,
             q[1] * q[3] + (q[2] - q[3]) * q[4], 2 * q[1], 2 * q[2],
             <<Pt(q[4], y1), Pt(x1, y0), Pt(x0, y0), Pt(x0, y1)>>)
    [] f = "n_rod" ->
         [Irr("nastran_rod", <<L("dim_1", q[1]), C("n", q[2])>>, 1, TRUE, <<<<E(K(2 * q[1]), K(2 * q[1]), q[2])>>>>)
          EXCEPT !.rec = <<Pt(0, 2 * q[1]), Pt(2 * q[1], 0), Pt(0, -2 * q[1]), Pt(-2 * q[1], 0)>>]
    [] f = "n_tube" ->
         [Irr("nastran_tube", <<L("dim_1", q[1]), L("dim_2", q[2]), C("n", q[3])>>, 1, q[2] < q[1],
              <<<<E(K(2 * q[1]), K(2 * q[1]), q[3])>>, <<E(K(2 * q[2]), K(2 * q[2]), q[3])>>>>)
          EXCEPT !.rec = <<Pt(0, 2 * q[1]), Pt(2 * q[1], 0), Pt(0, -2 * q[1]), Pt(-2 * q[1], 0)>>]
    [] f = "n_tube2" ->   \* outer radius, thickness
         [Irr("nastran_tube2", <<L("dim_1", q[1]), L("dim_2", q[2]), C("n", q[3])>>, 1, q[2] < q[1],
              <<<<E(K(2 * q[1]), K(2 * q[1]), q[3])>>, <<E(K(2 * (q[1] - q[2])), K(2 * (q[1] - q[2])), q[3])>>>>)
          EXCEPT !.rec = <<Pt(0, 2 * q[1]), Pt(2 * q[1], 0), Pt(0, -2 * q[1]), Pt(-2 * q[1], 0)>>]
    [] f = "n_tee" ->     \* 1 width 2 depth 3 flange 4 web
         LET y0 == q[3] - 2 * q[2] IN
         Rec("nastran_tee", Dims(q), 1, q[4] < q[1] /\ q[3] < q[2],
             <<<<V(-q[4], y0), V(q[4], y0), V(q[4], -q[3]), V(q[1], -q[3]), V(q[1], q[3]), V(-q[1], q[3]), V(-q[1], -q[3]),
                 V(-q[4], -q[3])>>>>,
             q[1] * q[3] + (q[2] - q[3]) * q[4], 2 * q[1], 2 * q[2],
             <<Pt(0, q[3]), Pt(q[1], q[3]), Pt(0, y0), Pt(-q[1], q[3])>>)
    [] f = "n_tee1" ->    \* 1 depth 2 web length 3 flange 4 web
         LET x0 == -q[3] - 2 * q[2] IN
         Rec("nastran_tee1", Dims(q), 1, q[4] < q[1],
             <<<<V(-q[3], -q[1]), V(q[3], -q[1]), V(q[3], q[1]), V(-q[3], q[1]), V(-q[3], q[4]), V(x0, q[4]), V(x0, -q[4]),
                 V(-q[3], -q[4])>>>>,
             q[1] * q[3] + q[2] * q[4], 2 * (q[2] + q[3]), 2 * q[1],
             <<Pt(q[3], 0), Pt(q[3], -q[1]), Pt(x0, 0), Pt(q[3], q[1])>>)
    [] f = "n_tee2" ->
         LET y1 == 2 * q[2] - q[3] IN
         Rec("nastran_tee2", Dims(q), 1, q[4] < q[1] /\ q[3] < q[2],
             <<<<V(-q[1], -q[3]), V(q[1], -q[3]), V(q[1], q[3]), V(q[4], q[3]), V(q[4], y1), V(-q[4], y1), V(-q[4], q[3]),
                 V(-q[1], q[3])>>>>,
             q[1] * q[3] + (q[2] - q[3]) * q[4], 2 * q[1], 2 * q[2],
             <<Pt(q[4], y1), Pt(q[1], -q[3]), Pt(-q[1], -q[3]), Pt(-q[4], y1)>>)
    [] f = "n_zed" ->     \* 1 outstands 2 web 3 clear depth 4 depth
         LET x == q[2] + 2 * q[1] IN
         Rec("nastran_zed", Dims(q), 1, q[4] > q[3],
             <<<<V(-q[2], -q[4]), V(x, -q[4]), V(x, -q[3]), V(q[2], -q[3]), V(q[2], q[4]), V(-x, q[4]), V(-x, q[3]),
                 V(-q[2], q[3])>>>>,
             q[2] * q[4] + q[1] * (q[4] - q[3]), 2 * (2 * q[1] + q[2]), 2 * q[4],
             <<Pt(q[2], q[4]), Pt(x, -q[4]), Pt(-q[2], -q[4]), Pt(-x, q[4])>>)

N4 == IF Deep THEN 1..6 ELSE {1, 2, 3, 5}
NasDom(f) ==
  CASE f = "n_bar" -> N4 \X N4
    [] f = "n_rod" -> N4 \X {3, 4, 9, 32}
    [] f \in {"n_tube", "n_tube2"} -> N4 \X N4 \X {3, 4, 9, 32}
    [] f = "n_hexa" -> {x \in N4 \X N4 \X N4 : 2 * x[1] < x[2] \/ x[2] <= x[1]}
    [] f \in {"n_box1", "n_gbox"} -> {5, 7} \X {4, 7} \X {1, 3} \X {1, 2, 4} \X {1, 2, 3} \X {1, 2, 4}
    [] f = "n_i" -> {4, 9} \X {2, 5} \X {3, 6} \X {1, 2, 3} \X {1, 3} \X {1, 2, 3}
    [] f = "n_hat" -> {x \in N4 \X N4 \X {3, 6, 11} \X N4 : 2 * x[2] < x[3]}
    [] f = "n_hat1" -> {x \in {6, 9} \X {3, 5, 8} \X {3, 6, 8} \X {1, 2} \X {1, 2} : 2 * x[4] < x[3]}
    [] f = "n_fcross" -> {x \in {9, 12} \X {9, 14} \X {1, 3} \X {1, 2} \X {2, 5, 9} \X {1, 3, 4} \X {2, 6, 9} \X {1, 2, 4} :
                           \* neighbouring flanges apart
                           x[5] < x[2] - 2 * x[8] \/ x[7] < x[1] - 2 * x[6]}
    [] f = "n_dbox" -> {x \in {9, 10} \X {4, 6} \X {3, 5} \X {1, 2} \X {1, 2} \X {1, 3} \X {1, 2} \X {1, 2, 3} \X {1, 3} \X {1, 2} :
                          2 * x[3] + x[5] < 2 * (x[1] - x[6])}
    [] OTHER -> N4 \X N4 \X N4 \X N4

(* ------------------------------ behaviour ------------------------------ *)
PrimFams == {"rect", "circ", "circA", "ell", "tri", "triR", "cruci"}
SteelFams == {"chs", "ehs", "rhs", "poly", "i", "mono", "tapI", "chan", "tapC", "tee", "angle", "cee", "zed", "boxg", "bulb"}
BridgeFams == {"igird", "supert"}
NasFams == {"n_bar", "n_box", "n_box1", "n_chan", "n_chan1", "n_chan2", "n_cross", "n_fcross", "n_dbox", "n_gbox", "n_h",
            "n_hat", "n_hat1", "n_hexa", "n_i", "n_i1", "n_l", "n_rod", "n_tube", "n_tube2", "n_tee", "n_tee1", "n_tee2", "n_zed"}
AllFams == PrimFams \cup SteelFams \cup BridgeFams \cup NasFams \cup {"clt"}

Dom(f) == CASE f \in PrimFams -> PrimDom(f) [] f \in SteelFams -> SteelDom(f) [] f \in BridgeFams -> BridgeDom(f)
            [] f \in NasFams -> NasDom(f) [] OTHER -> TimberDom
Shape == CASE fam \in PrimFams -> Prim(fam, p) [] fam \in SteelFams -> Steel(fam, p) [] fam \in BridgeFams -> Bridge(fam, p)
           [] fam \in NasFams -> Nas(fam, p) [] OTHER -> Timber(fam, p)

Init == fam \in Fams /\ p \in Dom(fam)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* -------------------------------- laws --------------------------------- *)
Nx(u, k) == u[(k % Len(u)) + 1]
Cross(a, b, c) == (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
RECURSIVE Shoe(_, _)
Shoe(u, k) == IF k = 0 THEN 0 ELSE u[k].x * Nx(u, k).y - Nx(u, k).x * u[k].y + Shoe(u, k - 1)
Ar2(u) == LET s == Shoe(u, Len(u)) IN IF s < 0 THEN -s ELSE s
Btw(a, b, c) == /\ Min(a.x, b.x) <= c.x /\ c.x <= Max(a.x, b.x)
                /\ Min(a.y, b.y) <= c.y /\ c.y <= Max(a.y, b.y)
Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
(* closed segments ab and cd share a point                                    *)
Meet(a, b, c, d) ==
  LET o1 == Sg(Cross(a, b, c))  o2 == Sg(Cross(a, b, d))  o3 == Sg(Cross(c, d, a))  o4 == Sg(Cross(c, d, b)) IN
  \/ o1 # o2 /\ o3 # o4
  \/ (o1 = 0 /\ Btw(a, b, c))  \/ (o2 = 0 /\ Btw(a, b, d))
  \/ (o3 = 0 /\ Btw(c, d, a))  \/ (o4 = 0 /\ Btw(c, d, b))
Simple(u) == LET n == Len(u) IN
  \A i, j \in 1..n : (i < j /\ j # i + 1 /\ ~(i = 1 /\ j = n)) => ~Meet(u[i], Nx(u, i), u[j], Nx(u, j))
(* the roundings of two neighbouring corners fit on the side between them      *)
Len1(a, b) == LET dx == b.x - a.x  dy == b.y - a.y IN Max(Max(dx, -dx), Max(dy, -dy))
Fits(u) == \A k \in 1..Len(u) : u[k].r > 0 => u[k].r + Nx(u, k).r <= Len1(u[k], Nx(u, k))
Apart(u, v) == \A i \in 1..Len(u), j \in 1..Len(v) : ~Meet(u[i], Nx(u, i), v[j], Nx(v, j))
Xs(u) == {u[k].x : k \in 1..Len(u)}
Ys(u) == {u[k].y : k \in 1..Len(u)}
Span(s) == (CHOOSE a \in s : \A b \in s : b <= a) - (CHOOSE a \in s : \A b \in s : a <= b)
Law ==
  LET s == Shape
      rs == s.regions
      RECURSIVE holes(_, _)
      holes(g, k) == IF k < 2 THEN 0 ELSE Ar2(g.rings[k]) + holes(g, k - 1)
      RECURSIVE tot(_)
      tot(k) == IF k = 0 THEN 0 ELSE Ar2(rs[k].rings[1]) - holes(rs[k], Len(rs[k].rings)) + tot(k - 1)
  IN (s.ok /\ s.whole) =>
       /\ \A k \in 1..Len(rs) : LET g == rs[k] IN
            /\ \A q \in 1..Len(g.rings) : Simple(g.rings[q]) /\ Fits(g.rings[q])
            /\ \A q, w \in 1..Len(g.rings) : q < w => Apart(g.rings[q], g.rings[w])
       /\ s.area # NoParts => tot(Len(rs)) = 8 * s.area
       /\ Span(UNION {Xs(rs[k].rings[1]) : k \in 1..Len(rs)}) = s.wd
       /\ Span(UNION {Ys(rs[k].rings[1]) : k \in 1..Len(rs)}) = s.dp

Emit == PrintT("@@" \o ToJson([fam |-> fam, s |-> Shape]))
=============================================================================
