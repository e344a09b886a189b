------------------------------ MODULE CovTerms ------------------------------
(***************************************************************************)
(* Results after a similarity, from the results before (o_ names).           *)
(* ra rb rc re: the orthogonal part of the map, kk its scale, tx ty its        *)
(* translation; mm, ff: factors of the moduli and the strengths; nphi: the     *)
(* reported angle of the 11 axis afterwards.  s1, s2: whether the new 11 and    *)
(* 22 axes point along (1) or against (-1) the images of the old ones.         *)
(***************************************************************************)
EXTENDS Formulas

K2 == Sq(V("kk"))
K3 == K2 (.) V("kk")
K4 == Sq(K2)
(* vector (x, y) rotated, tensors (xx = INT y y, yy = INT x x, xy) rotated       *)
RX(x, y) == (V("ra") (.) x) (+) (V("rb") (.) y)
RY(x, y) == (V("rc") (.) x) (+) (V("re") (.) y)
PX(x, y) == (V("kk") (.) RX(x, y)) (+) V("tx")
PY(x, y) == (V("kk") (.) RY(x, y)) (+) V("ty")
TYY(xx, yy, xy) == ((Sq(V("ra")) (.) yy) (+) (Sq(V("rb")) (.) xx)) (+) (N(2) (.) ((V("ra") (.) V("rb")) (.) xy))
TXX(xx, yy, xy) == ((Sq(V("rc")) (.) yy) (+) (Sq(V("re")) (.) xx)) (+) (N(2) (.) ((V("rc") (.) V("re")) (.) xy))
TXY(xx, yy, xy) == (((V("ra") (.) V("rc")) (.) yy) (+) ((V("rb") (.) V("re")) (.) xx))
                   (+) ((((V("ra") (.) V("re")) (+) (V("rb") (.) V("rc"))) (.) xy))
O(n) == V("o_" \o n)
Two(p, q) == If(V("s2"), p, q)
Two1(p, q) == If(V("s1"), p, q)
(* along the images of the axes: x' or y' direction of the old x, y *)
Pick(ya, yb, xa, xb) == If(V("re"), ya, If(N(0) (-) V("re"), yb, If(V("rc"), xa, xb)))
PickX(xa, xb, ya, yb) == If(V("ra"), xa, If(N(0) (-) V("ra"), xb, If(V("rb"), ya, yb)))
SwapY(y, x) == Pick(y, y, x, x)
SwapX(x, y) == PickX(x, x, y, y)

CovAny == <<
  D("A", K2 (.) O("A")), D("perim", V("kk") (.) O("perim")), D("mass", K2 (.) O("mass")),
  D("EA", V("mm") (.) (K2 (.) O("EA"))),
  D("Eeff", V("mm") (.) O("Eeff")), D("Geff", V("mm") (.) O("Geff")), D("nuEff", O("nuEff")),
  D("Qy", V("mm") (.) (K2 (.) ((V("kk") (.) RX(O("Qy"), O("Qx"))) (+) (V("tx") (.) O("EA"))))),
  D("Qx", V("mm") (.) (K2 (.) ((V("kk") (.) RY(O("Qy"), O("Qx"))) (+) (V("ty") (.) O("EA"))))),
  D("cx", PX(O("cx"), O("cy"))), D("cy", PY(O("cx"), O("cy"))),
  D("Ixx", V("mm") (.) (K4 (.) TXX(O("Ixx"), O("Iyy"), O("Ixy")))),
  D("Iyy", V("mm") (.) (K4 (.) TYY(O("Ixx"), O("Iyy"), O("Ixy")))),
  D("Ixy", V("mm") (.) (K4 (.) TXY(O("Ixx"), O("Iyy"), O("Ixy")))),
  D("IxxG", V("Ixx") (+) (V("EA") (.) Sq(V("cy")))),
  D("IyyG", V("Iyy") (+) (V("EA") (.) Sq(V("cx")))),
  D("IxyG", V("Ixy") (+) (V("EA") (.) (V("cx") (.) V("cy")))),
  D("rx", Sqrt(V("Ixx") (/) V("EA"))), D("ry", Sqrt(V("Iyy") (/) V("EA"))),
  D("I11", V("mm") (.) (K4 (.) O("I11"))), D("I22", V("mm") (.) (K4 (.) O("I22"))),
  D("r11", V("kk") (.) O("r11")), D("r22", V("kk") (.) O("r22")),
  D("J", V("mm") (.) (K4 (.) O("J"))), D("Gamma", V("mm") (.) ((K4 (.) K2) (.) O("Gamma"))),
  D("xse", PX(O("xse"), O("yse"))), D("yse", PY(O("xse"), O("yse"))),
  D("xst", PX(O("xst"), O("yst"))), D("yst", PY(O("xst"), O("yst"))),
  \* shear flexibility is a tensor
  D("ixy", If(Abs(O("Asxy")), N(1) (/) O("Asxy"), N(0))),
  D("fxx", ((Sq(V("ra")) (/) O("Asx")) (+) (Sq(V("rb")) (/) O("Asy")))
           (+) (N(2) (.) ((V("ra") (.) V("rb")) (.) V("ixy")))),
  D("fyy", ((Sq(V("rc")) (/) O("Asx")) (+) (Sq(V("re")) (/) O("Asy")))
           (+) (N(2) (.) ((V("rc") (.) V("re")) (.) V("ixy")))),
  D("Asx", V("mm") (.) (K2 (/) V("fxx"))), D("Asy", V("mm") (.) (K2 (/) V("fyy"))),
  \* monosymmetry: the cubic moments are a vector
  D("wx", ((N(2) (.) (O("xse") (-) O("cx"))) (-) O("byP")) (.) O("Iyy")),
  D("wy", ((N(2) (.) (O("yse") (-) O("cy"))) (-) O("bxP")) (.) O("Ixx")),
  D("k5", V("mm") (.) (K4 (.) V("kk"))),
  D("byP", (N(2) (.) (V("xse") (-) V("cx"))) (-) ((V("k5") (.) RX(V("wx"), V("wy"))) (/) V("Iyy"))),
  D("bxP", (N(2) (.) (V("yse") (-) V("cy"))) (-) ((V("k5") (.) RY(V("wx"), V("wy"))) (/) V("Ixx"))),
  D("byM", N(0) (-) V("byP")), D("bxM", N(0) (-) V("bxP"))
>>

(* about principal axes (when these are distinct)                             *)
CovPrincipal == <<
  D("oux", Cos(O("phi"))), D("ouy", Sin(O("phi"))),
  D("s1", (RX(V("oux"), V("ouy")) (.) Cos(V("nphi"))) (+) (RY(V("oux"), V("ouy")) (.) Sin(V("nphi")))),
  \* the 22 axis is a quarter turn from the 11 axis
  D("s2", V("s1") (.) ((V("ra") (.) V("re")) (-) (V("rb") (.) V("rc")))),
  D("x11se", If(V("s1"), N(1), N(0) (-) N(1)) (.) (V("kk") (.) O("x11se"))),
  D("y22se", If(V("s2"), N(1), N(0) (-) N(1)) (.) (V("kk") (.) O("y22se"))),
  D("z11P", V("mm") (.) (K3 (.) Two(O("z11P"), O("z11M")))),
  D("z11M", V("mm") (.) (K3 (.) Two(O("z11M"), O("z11P")))),
  D("z22P", V("mm") (.) (K3 (.) Two1(O("z22P"), O("z22M")))),
  D("z22M", V("mm") (.) (K3 (.) Two1(O("z22M"), O("z22P")))),
  D("My11", V("ff") (.) (K3 (.) O("My11"))), D("My22", V("ff") (.) (K3 (.) O("My22"))),
  D("As11", V("mm") (.) (K2 (.) O("As11"))), D("As22", V("mm") (.) (K2 (.) O("As22"))),
  D("b11P", If(V("s2"), N(1), N(0) (-) N(1)) (.) (V("kk") (.) O("b11P"))),
  D("b22P", If(V("s1"), N(1), N(0) (-) N(1)) (.) (V("kk") (.) O("b22P"))),
  D("b11M", N(0) (-) V("b11P")), D("b22M", N(0) (-) V("b22P")),
  D("S11", V("ff") (.) (K3 (.) O("S11"))), D("S22", V("ff") (.) (K3 (.) O("S22"))),
  D("x11pc", PX(O("x11pc"), O("y22pc"))), D("y22pc", PY(O("x11pc"), O("y22pc"))),
  D("sf11P", Two(O("sf11P"), O("sf11M"))), D("sf11M", Two(O("sf11M"), O("sf11P"))),
  D("sf22P", Two1(O("sf22P"), O("sf22M"))), D("sf22M", Two1(O("sf22M"), O("sf22P")))
>>

(* about the given axes, when these are mapped onto each other                 *)
CovAxes == <<
  D("zxxP", V("mm") (.) (K3 (.) Pick(O("zxxP"), O("zxxM"), O("zyyP"), O("zyyM")))),
  D("zxxM", V("mm") (.) (K3 (.) Pick(O("zxxM"), O("zxxP"), O("zyyM"), O("zyyP")))),
  D("zyyP", V("mm") (.) (K3 (.) PickX(O("zyyP"), O("zyyM"), O("zxxP"), O("zxxM")))),
  D("zyyM", V("mm") (.) (K3 (.) PickX(O("zyyM"), O("zyyP"), O("zxxM"), O("zxxP")))),
  D("Myx", V("ff") (.) (K3 (.) SwapY(O("Myx"), O("Myy")))),
  D("Myy", V("ff") (.) (K3 (.) SwapX(O("Myy"), O("Myx")))),
  D("Sxx", V("ff") (.) (K3 (.) SwapY(O("Sxx"), O("Syy")))),
  D("Syy", V("ff") (.) (K3 (.) SwapX(O("Syy"), O("Sxx")))),
  D("xpc", PX(O("xpc"), O("ypc"))), D("ypc", PY(O("xpc"), O("ypc"))),
  D("sfxP", Pick(O("sfxP"), O("sfxM"), O("sfyP"), O("sfyM"))),
  D("sfxM", Pick(O("sfxM"), O("sfxP"), O("sfyM"), O("sfyP"))),
  D("sfyP", PickX(O("sfyP"), O("sfyM"), O("sfxP"), O("sfxM"))),
  D("sfyM", PickX(O("sfyM"), O("sfyP"), O("sfxM"), O("sfxP")))
>>

CovDefs == [ covany |-> CovAny, covprincipal |-> CovPrincipal, covaxes |-> CovAxes ]
=============================================================================
