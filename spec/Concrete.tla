------------------------------ MODULE Concrete ------------------------------
(***************************************************************************)
(* The reinforced concrete sections: an outline and the bars in it.          *)
(*                                                                          *)
(* Coordinates are in quarter units.  Bars stand in rows                      *)
(*    [x0, y0, x1, y1, n, m, a, b]                                           *)
(* n bars equally spaced from (x0, y0) to (x1, y1), ends included (m: another *)
(* admissible number; a, b: the first / last place is left to another row).    *)
(* Bars at the same place are one bar.                                         *)
(*                                                                          *)
(* Doubly reinforced walls need no list of rows: the rows are the edges of    *)
(* the outline moved inwards by the cover and half a bar, whatever the shape   *)
(* of the wall.                                                                *)
(***************************************************************************)
EXTENDS Shapes

MaxOf(a, b) == IF a > b THEN a ELSE b
AbsV(n) == IF n < 0 THEN -n ELSE n
CeilDiv(a, b) == (a + b - 1) \div b

RowLen(u) == AbsV(u.x1 - u.x0) + AbsV(u.y1 - u.y0)
Need(len, s) == CeilDiv(len, 4 * s) + 1             \* bars on a line of this length
Row(x0, y0, x1, y1, n) == [x0 |-> x0, y0 |-> y0, x1 |-> x1, y1 |-> y1, n |-> n, m |-> n, a |-> FALSE, b |-> FALSE]
Line(x0, y0, x1, y1, s) == Row(x0, y0, x1, y1, Need(AbsV(x1 - x0) + AbsV(y1 - y0), s))
Ends(u, a, b) == [u EXCEPT !.a = a, !.b = b]
\* beside a door one more bar than needed is admissible
Spare(u, e, s) == [u EXCEPT !.m = CeilDiv(AbsV(u.x1 - u.x0) + AbsV(u.y1 - u.y0) + e, 4 * s) + 1]

(* outlines of the walls, counter-clockwise; corner k is u[k]                  *)
P2(x, y) == V(x, y)
Prev(u, k) == u[IF k = 1 THEN Len(u) ELSE k - 1]
Dirv(a, b) == [x |-> Sg(b.x - a.x), y |-> Sg(b.y - a.y)]
(* moved inwards by e: the interior is on the left of every edge               *)
Inset(u, e) == [k \in 1..Len(u) |->
   LET f == Dirv(Prev(u, k), u[k])  g == Dirv(u[k], Nx(u, k))
   IN V(u[k].x - e * f.y - e * g.y, u[k].y + e * f.x + e * g.x)]
EdgeRows(u, e, s) == LET v == Inset(u, e) IN
   [k \in 1..Len(v) |-> Line(v[k].x, v[k].y, Nx(v, k).x, Nx(v, k).y, s)]

CRec(fn, args, ok, loops, rows) ==
  [fn |-> fn, args |-> args, ok |-> ok, loops |-> loops, rows |-> rows, grid |-> <<>>, ring |-> <<>>, disc |-> <<>>,
   dias |-> <<>>]

(* bars: <<area, diameter, number of points>> *)
WallArgs(q, n) ==      \* dia area spacing cover double n_circle, from position n of q
  <<L("dia_bar", q[n]), AR("area_bar", q[n + 1]), L("spacing", q[n + 2]), L("cover", q[n + 3]),
    [k |-> "bool", n |-> "double", v |-> q[n + 4]], C("n_circle", q[n + 5])>>

Wall(f, q) ==
  CASE f = "w_rect" ->      \* d t | dia area s c double n
         LET d == 4 * q[1]  t == 4 * q[2]  s == q[5]  e == 4 * q[6] + 2 * q[3]
             lp == <<P2(0, 0), P2(t, 0), P2(t, d), P2(0, d)>>
         IN CRec("rectangular_wall", <<L("d", q[1]), L("t", q[2])>> \o WallArgs(q, 3), TRUE, <<lp>>,
              IF q[7] THEN EdgeRows(lp, e, s) ELSE <<Line(t \div 2, e, t \div 2, d - e, s)>>)
    [] f = "w_cee" ->       \* d b t_f t_w | ...
         LET d == 4 * q[1]  b == 4 * q[2]  tf == 4 * q[3]  tw == 4 * q[4]  s == q[7]  e == 4 * q[8] + 2 * q[5]
             lp == <<P2(0, 0), P2(b, 0), P2(b, tf), P2(tw, tf), P2(tw, d - tf), P2(b, d - tf), P2(b, d), P2(0, d)>>
             hf == tf \div 2  hw == tw \div 2
         IN CRec("cee_wall", <<L("d", q[1]), L("b", q[2]), L("t_f", q[3]), L("t_w", q[4])>> \o WallArgs(q, 5), TRUE, <<lp>>,
              IF q[9] THEN EdgeRows(lp, e, s)
              ELSE <<Line(hw, hf, b - e, hf, s), Line(hw, d - hf, b - e, d - hf, s), Line(hw, hf, hw, d - hf, s)>>)
    [] f = "w_tee" ->
         LET d == 4 * q[1]  b == 4 * q[2]  tf == 4 * q[3]  tw == 4 * q[4]  s == q[7]  e == 4 * q[8] + 2 * q[5]
             x1 == (b - tw) \div 2  x2 == (b + tw) \div 2
             lp == <<P2(x1, 0), P2(x2, 0), P2(x2, d - tf), P2(b, d - tf), P2(b, d), P2(0, d), P2(0, d - tf), P2(x1, d - tf)>>
         IN CRec("tee_wall", <<L("d", q[1]), L("b", q[2]), L("t_f", q[3]), L("t_w", q[4])>> \o WallArgs(q, 5), TRUE, <<lp>>,
              IF q[9] THEN EdgeRows(lp, e, s)
              ELSE <<Line(e, d - (tf \div 2), b - e, d - (tf \div 2), s),
                     Ends(Line(b \div 2, e, b \div 2, d - (tf \div 2), s), FALSE, TRUE)>>)
    [] f = "w_single" ->    \* d b t1 t2 a | ...
         LET d == 4 * q[1]  b == 4 * q[2]  t1 == 4 * q[3]  t2 == 4 * q[4]  s == q[8]  e == 4 * q[9] + 2 * q[6]
             y1 == 2 * (q[1] - q[5])  y2 == 2 * (q[1] + q[5])
             lp == <<P2(0, 0), P2(b, 0), P2(b, y1), P2(b - t2, y1), P2(b - t2, t1), P2(t2, t1), P2(t2, d - t1),
                     P2(b - t2, d - t1), P2(b - t2, y2), P2(b, y2), P2(b, d), P2(0, d)>>
             h1 == t1 \div 2  h2 == t2 \div 2
         IN CRec("single_lift_core", <<L("d", q[1]), L("b", q[2]), L("t1", q[3]), L("t2", q[4]), L("a", q[5])>>
                 \o WallArgs(q, 6), TRUE, <<lp>>,
              IF q[10] THEN EdgeRows(lp, e, s)
              ELSE <<Line(h2, h1, b - h2, h1, s), Line(h2, d - h1, b - h2, d - h1, s), Line(h2, h1, h2, d - h1, s),
                     Line(b - h2, h1, b - h2, y1 - e, s), Line(b - h2, y2 + e, b - h2, d - h1, s)>>)
    [] f = "w_core_a" ->    \* d b t1 t2 a1 a2 | ...
         LET d == 4 * q[1]  b == 4 * q[2]  t1 == 4 * q[3]  t2 == 4 * q[4]  s == q[9]  e == 4 * q[10] + 2 * q[7]
             p1 == 2 * (q[1] - q[6])  p2 == 2 * (q[1] + q[6])
             y1 == p1 - 4 * q[5]  y2 == p2 + 4 * q[5]
             lp == <<P2(0, 0), P2(b, 0), P2(b, y1), P2(b - t2, y1), P2(b - t2, t1), P2(t2, t1), P2(t2, d - t1),
                     P2(b - t2, d - t1), P2(b - t2, y2), P2(b, y2), P2(b, d), P2(0, d)>>
             pier == <<P2(b - t2, p1), P2(b, p1), P2(b, p2), P2(b - t2, p2)>>
             h1 == t1 \div 2  h2 == t2 \div 2
         IN CRec("double_lift_core_a", <<L("d", q[1]), L("b", q[2]), L("t1", q[3]), L("t2", q[4]), L("a1", q[5]), L("a2", q[6])>>
                 \o WallArgs(q, 7), 2 * q[5] + q[6] <= q[1] - 2 * q[3], <<lp, pier>>,
              IF q[11] THEN EdgeRows(lp, e, s) \o EdgeRows(pier, e, s)
              ELSE <<Line(h2, h1, b - h2, h1, s), Line(h2, d - h1, b - h2, d - h1, s), Line(h2, h1, h2, d - h1, s),
                     Spare(Line(b - h2, h1, b - h2, y1 - e, s), e, s), Spare(Line(b - h2, y2 + e, b - h2, d - h1, s), e, s),
                     Line(b - h2, p1 + e, b - h2, p2 - e, s)>>)
    [] f = "w_core_b" ->    \* d b t1 t2 t3 a | ...
         LET d == 4 * q[1]  b == 4 * q[2]  t1 == 4 * q[3]  t2 == 4 * q[4]  s == q[9]  e == 4 * q[10] + 2 * q[7]
             nib == q[1] - 2 * q[3] - 2 * q[6] - q[5]        \* quarter of the length left by the doors
             m1 == 2 * (q[1] - q[5])  m2 == 2 * (q[1] + q[5])
             p1 == m1 - nib  p2 == m2 + nib
             y1 == t1 + nib  y2 == d - t1 - nib
             lp == <<P2(0, 0), P2(b, 0), P2(b, y1), P2(b - t2, y1), P2(b - t2, t1), P2(t2, t1), P2(t2, m1), P2(b - t2, m1),
                     P2(b - t2, p1), P2(b, p1), P2(b, p2), P2(b - t2, p2), P2(b - t2, m2), P2(t2, m2), P2(t2, d - t1),
                     P2(b - t2, d - t1), P2(b - t2, y2), P2(b, y2), P2(b, d), P2(0, d)>>
             h1 == t1 \div 2  h2 == t2 \div 2
         IN CRec("double_lift_core_b", <<L("d", q[1]), L("b", q[2]), L("t1", q[3]), L("t2", q[4]), L("t3", q[5]), L("a", q[6])>>
                 \o WallArgs(q, 7), 2 * q[6] <= q[1] - 2 * q[3] - q[5], <<lp>>,
              IF q[11] THEN EdgeRows(lp, e, s)
              ELSE <<Line(h2, h1, b - h2, h1, s), Line(h2, d - h1, b - h2, d - h1, s), Line(h2, h1, h2, d - h1, s),
                     Ends(Line(h2, d \div 2, b - h2, d \div 2, s), TRUE, TRUE),
                     Spare(Line(b - h2, h1, b - h2, y1 - e, s), e, s), Spare(Line(b - h2, y2 + e, b - h2, d - h1, s), e, s),
                     Line(b - h2, p1 + e, b - h2, p2 - e, s)>>)
    [] f = "w_stair" ->     \* d b t1 t2 a | ...
         LET d == 4 * q[1]  b == 4 * q[2]  t1 == 4 * q[3]  t2 == 4 * q[4]  s == q[8]  e == 4 * q[9] + 2 * q[6]
             y1 == 4 * (q[1] - q[3] - q[5])
             lp == <<P2(0, 0), P2(b, 0), P2(b, y1), P2(b - t2, y1), P2(b - t2, t1), P2(t2, t1), P2(t2, d - t1), P2(b, d - t1),
                     P2(b, d), P2(0, d)>>
             h1 == t1 \div 2  h2 == t2 \div 2
             more(rs) == [rs EXCEPT ![2] = Spare(rs[2], e, s)]
         IN CRec("stairwell", <<L("d", q[1]), L("b", q[2]), L("t1", q[3]), L("t2", q[4]), L("a", q[5])>>
                 \o WallArgs(q, 6), TRUE, <<lp>>,
              IF q[10] THEN more(EdgeRows(lp, e, s))
              ELSE <<Line(h2, h1, b - h2, h1, s), Line(h2, d - h1, b - h2, d - h1, s), Line(h2, h1, h2, d - h1, s),
                     Line(b - h2, h1, b - h2, y1 - e, s)>>)

(* beams and columns: <<dia, area, n, cover>> of the top, bottom and side bars  *)
BeamRow(xl, xr, y, n) == IF n = 1 THEN Row((xl + xr) \div 2, y, (xl + xr) \div 2, y, 1) ELSE Row(xl, y, xr, y, n)
BeamArgs(q, n) ==      \* dt at nt ct db ab nb cb ds as ns cs nc
  <<L("dia_top", q[n]), AR("area_top", q[n + 1]), C("n_top", q[n + 2]), L("c_top", q[n + 3]),
    L("dia_bot", q[n + 4]), AR("area_bot", q[n + 5]), C("n_bot", q[n + 6]), L("c_bot", q[n + 7])>>
  \o (IF q[n + 10] > 0 THEN <<L("dia_side", q[n + 8]), AR("area_side", q[n + 9]), C("n_side", q[n + 10])>> ELSE <<>>)
  \o (IF q[n + 11] > 0 THEN <<L("c_side", q[n + 11])>> ELSE <<>>) \o <<C("n_circle", q[n + 12])>>
(* xt: half widths at top and bottom, about the middle x *)
BeamRows(q, n, mid, wt, wb, d) ==
  LET ct == IF q[n + 11] > 0 THEN q[n + 11] ELSE q[n + 3]
      cb == IF q[n + 11] > 0 THEN q[n + 11] ELSE q[n + 7]
      et == 4 * ct + 2 * q[n]  eb == 4 * cb + 2 * q[n + 4]
      yt == d - 4 * q[n + 3] - 2 * q[n]  yb == 4 * q[n + 7] + 2 * q[n + 4]
      es == 4 * q[n + 11] + 2 * q[n + 8]
  IN [top |-> IF q[n + 2] > 0 THEN <<BeamRow(mid - wt + et, mid + wt - et, yt, q[n + 2])>> ELSE <<>>,
      bot |-> IF q[n + 6] > 0 THEN <<BeamRow(mid - wb + eb, mid + wb - eb, yb, q[n + 6])>> ELSE <<>>,
      side |-> IF q[n + 10] > 0
               THEN <<Ends(Row(mid - wb + es, yb, mid - wb + es, yt, q[n + 10] + 2), TRUE, TRUE),
                      Ends(Row(mid + wb - es, yb, mid + wb - es, yt, q[n + 10] + 2), TRUE, TRUE)>> ELSE <<>>]

Beam(f, q) ==
  CASE f = "c_rect" ->      \* d b | bars
         LET d == 4 * q[1]  b == 4 * q[2] IN
         CRec("concrete_rectangular_section", <<L("d", q[1]), L("b", q[2])>> \o BeamArgs(q, 3), TRUE,
              <<Box(0, 0, b, d)>>, BeamRows(q, 3, b \div 2, b \div 2, b \div 2, d))
    [] f = "c_tee" ->       \* d b d_f b_f | bars
         LET d == 4 * q[1]  b == 2 * q[2]  w == 2 * q[4]  y == d - 4 * q[3] IN
         CRec("concrete_tee_section", <<L("d", q[1]), L("b", q[2]), L("d_f", q[3]), L("b_f", q[4])>> \o BeamArgs(q, 5), TRUE,
              << <<V(-b, 0), V(b, 0), V(b, y), V(w, y), V(w, d), V(-w, d), V(-w, y), V(-b, y)>> >>,
              BeamRows(q, 5, 0, w, b, d))
    [] f = "c_col" ->       \* d b dia area n_x n_y cover n_circle filled
         LET d == 4 * q[1]  b == 4 * q[2]  e == 4 * q[7] + 2 * q[3] IN
         [CRec("concrete_column_section", <<L("d", q[1]), L("b", q[2]), L("dia_bar", q[3]), AR("area_bar", q[4]), C("n_x", q[5]),
                 C("n_y", q[6]), L("cover", q[7]), C("n_circle", q[8]), [k |-> "bool", n |-> "filled", v |-> q[9]]>>, TRUE,
               <<Box(0, 0, b, d)>>,
               IF q[9] THEN <<>> ELSE <<Row(e, e, b - e, e, q[5]), Row(e, d - e, b - e, d - e, q[5]), Row(e, e, e, d - e, q[6]),
                                        Row(b - e, e, b - e, d - e, q[6])>>)
          EXCEPT !.grid = IF q[9] THEN <<e, e, b - e, d - e, q[5], q[6]>> ELSE <<>>]
    [] f = "c_circ" ->      \* d area_conc n_conc dia area n_bar cover n_circle
         [CRec("concrete_circular_section", <<L("d", q[1]), AR("area_conc", q[2]), C("n_conc", q[3]), L("dia_bar", q[4]),
                 AR("area_bar", q[5]), C("n_bar", q[6]), L("cover", q[7]), C("n_circle", q[8])>>, q[6] >= 2, <<>>, <<>>)
          EXCEPT !.ring = <<2 * q[1] - 4 * q[7] - 2 * q[4], q[6]>>, !.disc = <<q[2], q[3]>>]

(* ------------------------------- domains ------------------------------- *)
(* one unit is a few millimetres; the two faces of a wall are no further apart  *)
(* than the spacing asked for along it (its end needs no bars of its own)       *)
Bars == {4} \X {11, 13} \X {30, 40, 57} \X {6, 7} \X {TRUE, FALSE} \X {4, 5, 12}
Cat(a, b) == {x \o y : x \in a, y \in b}
WallDom(f) ==
  CASE f = "w_rect" -> Cat(Z({150, 233}) \X {36, 41}, Bars)
    [] f = "w_cee" -> Cat({160, 235} \X {120, 191} \X {36, 40} \X {36, 45}, Bars)
    [] f = "w_tee" -> Cat({160, 235} \X {170, 251} \X {36, 40} \X {36, 45}, Bars)
    [] f = "w_single" -> Cat({240, 301} \X {150, 233} \X {36, 40} \X {36, 45} \X {50, 99}, Bars)
    [] f = "w_core_a" -> Cat({400, 453} \X {150, 233} \X {36} \X {36, 45} \X {60, 113} \X {51, 90, 220}, Bars)
    [] f = "w_core_b" -> Cat({420, 497} \X {150, 233} \X {36} \X {36, 45} \X {36, 40} \X {60, 101, 160, 220}, Bars)
    [] f = "w_stair" -> Cat({240, 301} \X {150, 233} \X {36, 40} \X {36, 45} \X {50, 99}, Bars)
Top == {<<4, 12, 2, 6>>, <<6, 30, 3, 5>>, <<4, 11, 1, 6>>, <<4, 13, 5, 7>>, <<4, 12, 0, 6>>}
Bot == {<<4, 12, 3, 7>>, <<6, 25, 2, 6>>, <<5, 20, 1, 8>>, <<4, 12, 6, 6>>}
Side == {<<4, 10, 0, 0>>, <<4, 11, 0, 9>>, <<4, 12, 2, 8>>, <<5, 18, 1, 7>>, <<3, 7, 4, 6>>}
Circ == {<<4>>, <<5>>, <<12>>}
BeamDom(f) ==
  CASE f = "c_rect" -> Cat({100, 143} \X {80, 111}, Cat(Top, Cat(Bot, Cat(Side, Circ))))
    [] f = "c_tee" -> Cat({120, 153} \X {80, 91} \X {24, 30} \X {140, 201}, Cat(Top, Cat(Bot, Cat(Side, Circ))))
    [] f = "c_col" -> {100, 123} \X {80, 131} \X {4, 6} \X {12, 25} \X {2, 3, 5} \X {2, 3, 6} \X {6, 7} \X {4, 12} \X {TRUE, FALSE}
    [] f = "c_circ" -> {x \in {100, 131} \X {7800, 7900, 13000} \X {16, 31} \X {4, 6} \X {12, 25} \X {1, 2, 3, 8, 13} \X {6, 9} \X {4, 12} :
                          (x[1] = 131) = (x[2] = 13000)}
WallFams == {"w_rect", "w_cee", "w_tee", "w_single", "w_core_a", "w_core_b", "w_stair"}
BeamFams == {"c_rect", "c_tee", "c_col", "c_circ"}
ConcFams == WallFams \cup BeamFams
CDom(f) == IF f \in WallFams THEN WallDom(f) ELSE BeamDom(f)
CShape == IF fam \in WallFams THEN Wall(fam, p) ELSE Beam(fam, p)
CInit == fam \in Fams /\ p \in CDom(fam)
CSpec == CInit /\ [][Next]_vars

(* the spacing asked for, and the diameter                                    *)
WArg(s, nm) == LET RECURSIVE at(_)
                   at(k) == IF s.args[k].n = nm THEN s.args[k].v ELSE at(k + 1) IN at(1)
(* bars have room beside each other along every row                            *)
Roomy(s) == \A k \in 1..Len(s.rows) : LET u == s.rows[k] IN
   u.n > 1 => RowLen(u) = 0 \/ 2 * RowLen(u) >= 5 * 4 * WArg(s, "dia_bar") * (MaxOf(u.n, u.m) - 1)
Claimed(s) == s.ok => IF fam \in WallFams THEN Roomy(s) ELSE TRUE

(* -------------------------------- laws --------------------------------- *)
CLaw == LET s == CShape IN (s.ok /\ fam \in WallFams) =>
  /\ \A k \in 1..Len(s.loops) : Simple(s.loops[k]) /\ Shoe(s.loops[k], Len(s.loops[k])) > 0
  \* no row is longer than its bars reach at the spacing asked for
  /\ \A k \in 1..Len(s.rows) : RowLen(s.rows[k]) <= 4 * WArg(s, "spacing") * (s.rows[k].n - 1)
  \* the moved outline keeps its shape: no edge turns round
  /\ WArg(s, "double") => \A k \in 1..Len(s.loops) :
       LET u == s.loops[k]  v == Inset(u, 4 * WArg(s, "cover") + 2 * WArg(s, "dia_bar"))
       IN \A j \in 1..Len(u) : LET f == Dirv(u[j], Nx(u, j))  g == Dirv(v[j], Nx(v, j)) IN f = g \/ g = [x |-> 0, y |-> 0]

CEmit == LET s == CShape IN Claimed(s) => PrintT("@@" \o ToJson([fam |-> fam, s |-> s]))
=============================================================================
