------------------------------ MODULE Formulas ------------------------------
(***************************************************************************)
(* The theory of cross-section properties as terms over the leaf integrals. *)
(* A term is data (a tuple); the conformance harness evaluates it over the  *)
(* exact rationals (square roots and angles in floating point).  Names ending*)
(* in a list are vectors (one entry per region or per vertex); arithmetic    *)
(* on vectors is elementwise.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

N(k) == <<"n", k>>
V(s) == <<"v", s>>
a (+) b == <<"add", a, b>>
a (-) b == <<"sub", a, b>>
a (.) b == <<"mul", a, b>>
a (/) b == <<"div", a, b>>
Sqrt(a) == <<"sqrt", a>>
Abs(a)  == <<"abs", a>>
Sum(a)  == <<"sum", a>>
LMax(a) == <<"lmax", a>>
LMin(a) == <<"lmin", a>>
Max2(a, b) == <<"max", a, b>>
Min2(a, b) == <<"min", a, b>>
If(c, a, b) == <<"if", c, a, b>>      \* c > 0
Sq(a)   == a (.) a
Cos(a)  == <<"cosd", a>>
Sin(a)  == <<"sind", a>>
AtanD(y, x) == <<"atan2d", y, x>>

D(n, t) == [name |-> n, term |-> t]

----------------------------------------------------------------------------
(* Placement: x' = (pa x + pb y)/pd + tx, y' = (pc x + pe y)/pd + ty.        *)
(* Leaves of region r (lists): lA = 2A, lX = 6 INT x, lY = 6 INT y,          *)
(* lXX = 12 INT xx, lYY = 12 INT yy, lXY = 24 INT xy in lattice coordinates. *)
(* rA .. rXY are the integrals in placed coordinates.                        *)
Placed == <<
  D("s",  Abs((V("pa") (.) V("pe")) (-) (V("pb") (.) V("pc"))) (/) Sq(V("pd"))),
  D("ka", V("pa") (/) V("pd")), D("kb", V("pb") (/) V("pd")),
  D("kc", V("pc") (/) V("pd")), D("ke", V("pe") (/) V("pd")),
  D("a0", V("lA") (/) N(2)), D("x0", V("lX") (/) N(6)), D("y0", V("lY") (/) N(6)),
  D("xx0", V("lXX") (/) N(12)), D("yy0", V("lYY") (/) N(12)), D("xy0", V("lXY") (/) N(24)),
  D("rA", V("a0") (.) V("s")),
  \* rotated, not yet translated
  D("x1", V("s") (.) ((V("ka") (.) V("x0")) (+) (V("kb") (.) V("y0")))),
  D("y1", V("s") (.) ((V("kc") (.) V("x0")) (+) (V("ke") (.) V("y0")))),
  D("xx1", V("s") (.) ((Sq(V("ka")) (.) V("xx0")) (+)
           ((N(2) (.) V("ka") (.) V("kb") (.) V("xy0")) (+) (Sq(V("kb")) (.) V("yy0"))))),
  D("yy1", V("s") (.) ((Sq(V("kc")) (.) V("xx0")) (+)
           ((N(2) (.) V("kc") (.) V("ke") (.) V("xy0")) (+) (Sq(V("ke")) (.) V("yy0"))))),
  D("xy1", V("s") (.) ((V("ka") (.) V("kc") (.) V("xx0")) (+)
           ((((V("ka") (.) V("ke")) (+) (V("kb") (.) V("kc"))) (.) V("xy0")) (+)
            (V("kb") (.) V("ke") (.) V("yy0"))))),
  D("rX", V("x1") (+) (V("tx") (.) V("rA"))),
  D("rY", V("y1") (+) (V("ty") (.) V("rA"))),
  D("rXX", V("xx1") (+) ((N(2) (.) V("tx") (.) V("x1")) (+) (Sq(V("tx")) (.) V("rA")))),
  D("rYY", V("yy1") (+) ((N(2) (.) V("ty") (.) V("y1")) (+) (Sq(V("ty")) (.) V("rA")))),
  D("rXY", V("xy1") (+) ((V("tx") (.) V("y1")) (+) ((V("ty") (.) V("x1")) (+)
            (V("tx") (.) V("ty") (.) V("rA"))))),
  \* vertices (lists vx0, vy0 in lattice coordinates)
  D("vx", ((V("ka") (.) V("vx0")) (+) (V("kb") (.) V("vy0"))) (+) V("tx")),
  D("vy", ((V("kc") (.) V("vx0")) (+) (V("ke") (.) V("vy0"))) (+) V("ty")),
  \* exterior perimeter from the lengths of the exterior edges (squares plen2)
  D("perim", Sum(Sqrt(V("plen2"))) (.) Sqrt(V("s")))
>>

----------------------------------------------------------------------------
(* Modulus weighted sums.  mE, mNu, mRho, mFy: lists over the regions.       *)
Weighted == <<
  D("A",  Sum(V("rA"))),
  D("mass", Sum(V("rA") (.) V("mRho"))),
  D("EA", Sum(V("mE") (.) V("rA"))),
  D("mG", V("mE") (/) (N(2) (.) (N(1) (+) V("mNu")))),
  D("GA", Sum(V("mG") (.) V("rA"))),
  D("Qx", Sum(V("mE") (.) V("rY"))),
  D("Qy", Sum(V("mE") (.) V("rX"))),
  D("IxxG", Sum(V("mE") (.) V("rYY"))),
  D("IyyG", Sum(V("mE") (.) V("rXX"))),
  D("IxyG", Sum(V("mE") (.) V("rXY"))),
  D("Eeff", V("EA") (/) V("A")),
  D("Geff", V("GA") (/) V("A")),
  D("nuEff", (V("EA") (/) (N(2) (.) V("GA"))) (-) N(1))
>>

Centroidal == <<
  D("cx", V("Qy") (/) V("EA")),
  D("cy", V("Qx") (/) V("EA")),
  D("Ixx", V("IxxG") (-) (Sq(V("Qx")) (/) V("EA"))),
  D("Iyy", V("IyyG") (-) (Sq(V("Qy")) (/) V("EA"))),
  D("Ixy", V("IxyG") (-) ((V("Qx") (.) V("Qy")) (/) V("EA"))),
  D("yTop", LMax(V("vy")) (-) V("cy")), D("yBot", V("cy") (-) LMin(V("vy"))),
  D("xRight", LMax(V("vx")) (-) V("cx")), D("xLeft", V("cx") (-) LMin(V("vx"))),
  D("zxxP", V("Ixx") (/) V("yTop")), D("zxxM", V("Ixx") (/) V("yBot")),
  D("zyyP", V("Iyy") (/) V("xRight")), D("zyyM", V("Iyy") (/) V("xLeft")),
  D("rx", Sqrt(V("Ixx") (/) V("EA"))), D("ry", Sqrt(V("Iyy") (/) V("EA")))
>>

(* Principal axes.  phi: angle from the x axis to the 11 axis, the axis of   *)
(* the larger second moment.                                                *)
Principal == <<
  D("half", (V("Ixx") (-) V("Iyy")) (/) N(2)),
  D("delta", Sqrt(Sq(V("half")) (+) Sq(V("Ixy")))),
  D("I11", ((V("Ixx") (+) V("Iyy")) (/) N(2)) (+) V("delta")),
  D("I22", ((V("Ixx") (+) V("Iyy")) (/) N(2)) (-) V("delta")),
  D("r11", Sqrt(V("I11") (/) V("EA"))), D("r22", Sqrt(V("I22") (/) V("EA"))),
  \* twice the angle, from cos(2 phi) = half/delta, sin(2 phi) = -Ixy/delta
  D("phi2", AtanD(N(0) (-) V("Ixy"), V("half")))
>>

(* Principal section moduli at a given angle phi of the 11 axis *)
PrincipalModuli == <<
  D("v11", ((V("vx") (-) V("cx")) (.) Cos(V("phi"))) (+) ((V("vy") (-) V("cy")) (.) Sin(V("phi")))),
  D("v22", ((V("vy") (-) V("cy")) (.) Cos(V("phi"))) (-) ((V("vx") (-) V("cx")) (.) Sin(V("phi")))),
  D("z11P", V("I11") (/) LMax(V("v22"))), D("z11M", V("I11") (/) (N(0) (-) LMin(V("v22")))),
  D("z22P", V("I22") (/) LMax(V("v11"))), D("z22M", V("I22") (/) (N(0) (-) LMin(V("v11"))))
>>

(* First yield.  rvx, rvy: the vertices of every region (exact extremes of a  *)
(* linear stress), rvE, rvF their regions' moduli and yield strengths.  A     *)
(* moment Mxx alone strains fibres by (Iyy y - Ixy x)/det, Myy alone by       *)
(* (Ixy y - Ixx x)/det; about principal axes only one coordinate matters.     *)
FirstYield == <<
  D("ux", V("rvx") (-) V("cx")), D("uy", V("rvy") (-) V("cy")),
  D("u11", (V("ux") (.) Cos(V("phi"))) (+) (V("uy") (.) Sin(V("phi")))),
  D("u22", (V("uy") (.) Cos(V("phi"))) (-) (V("ux") (.) Sin(V("phi")))),
  D("det", (V("Ixx") (.) V("Iyy")) (-) Sq(V("Ixy"))),
  D("yxx", Abs((V("rvE") (/) V("rvF")) (.)
           (((V("Iyy") (.) V("uy")) (-) (V("Ixy") (.) V("ux"))) (/) V("det")))),
  D("yyy", Abs((V("rvE") (/) V("rvF")) (.)
           (((V("Ixy") (.) V("uy")) (-) (V("Ixx") (.) V("ux"))) (/) V("det")))),
  D("y11", Abs((V("rvE") (/) V("rvF")) (.) (V("u22") (/) V("I11")))),
  D("y22", Abs((V("rvE") (/) V("rvF")) (.) (V("u11") (/) V("I22")))),
  D("Myx", N(1) (/) LMax(V("yxx"))), D("Myy", N(1) (/) LMax(V("yyy"))),
  D("My11", N(1) (/) LMax(V("y11"))), D("My22", N(1) (/) LMax(V("y22")))
>>

----------------------------------------------------------------------------
(* Full plasticity.  Triangles with corners (t1x,t1y) .. relative to the      *)
(* centroid, twice their areas tA2, yield strengths tF.  The axis has unit     *)
(* normal (nx, ny) and distance dd from the centroid.  fAbove/fBelow: yield    *)
(* forces of the two parts; mPl: first moment of the yield force about the     *)
(* axis, both sides counted positive.  A triangle with heights lo <= mid <= hi *)
(* over the axis is cut off by similar triangles.                              *)
Height(x, y) == ((V(x) (.) V("nx")) (+) (V(y) (.) V("ny"))) (-) V("dd")
Clip == <<
  D("h1", Height("t1x", "t1y")), D("h2", Height("t2x", "t2y")), D("h3", Height("t3x", "t3y")),
  D("lo", Min2(V("h1"), Min2(V("h2"), V("h3")))),
  D("hi", Max2(V("h1"), Max2(V("h2"), V("h3")))),
  D("mid", ((V("h1") (+) V("h2")) (+) V("h3")) (-) (V("lo") (+) V("hi"))),
  D("tFA", V("tF") (.) (V("tA2") (/) N(2))),
  D("mean", ((V("h1") (+) V("h2")) (+) V("h3")) (/) N(3)),
  \* share of the small corner triangle: the lower one if mid > 0, else the upper one
  D("qlo", Sq(V("lo")) (/) ((V("mid") (-) V("lo")) (.) (V("hi") (-) V("lo")))),
  D("qhi", Sq(V("hi")) (/) ((V("hi") (-) V("lo")) (.) (V("hi") (-) V("mid")))),
  D("share", If(V("lo"), N(1), If(N(0) (-) V("hi"), N(0),
             If(V("mid"), N(1) (-) V("qlo"), V("qhi"))))),
  D("up", If(V("lo"), V("mean"), If(N(0) (-) V("hi"), N(0),
          If(V("mid"), V("mean") (-) (V("qlo") (.) (V("lo") (/) N(3))),
             V("qhi") (.) (V("hi") (/) N(3)))))),
  D("fAbove", Sum(V("tFA") (.) V("share"))),
  D("fTotal", Sum(V("tFA"))),
  D("fBelow", V("fTotal") (-) V("fAbove")),
  D("mPl", Sum(V("tFA") (.) ((N(2) (.) V("up")) (-) V("mean"))))
>>

(* shape factors; S.. are the plastic moduli or moments *)
ShapeGeo == <<
  D("sfxP", V("Sxx") (/) V("zxxP")), D("sfxM", V("Sxx") (/) V("zxxM")),
  D("sfyP", V("Syy") (/) V("zyyP")), D("sfyM", V("Syy") (/) V("zyyM")),
  D("sf11P", V("S11") (/) V("z11P")), D("sf11M", V("S11") (/) V("z11M")),
  D("sf22P", V("S22") (/) V("z22P")), D("sf22M", V("S22") (/) V("z22M")) >>
ShapeComp == <<
  D("sfxP", V("Sxx") (/) V("Myx")), D("sfxM", V("sfxP")),
  D("sfyP", V("Syy") (/) V("Myy")), D("sfyM", V("sfyP")),
  D("sf11P", V("S11") (/) V("My11")), D("sf11M", V("sf11P")),
  D("sf22P", V("S22") (/) V("My22")), D("sf22M", V("sf22P")) >>

----------------------------------------------------------------------------
(* Normal stress.  Actions N, Mxx, Myy, M11, M22 (Actions.tla); points px, py;  *)
(* pE the modulus of the region a point lies in.  Plane sections:              *)
(* strain = e0 + bx (x - cx) + by (y - cy), and about the principal axes.       *)
Stress == <<
  D("det", (V("Ixx") (.) V("Iyy")) (-) Sq(V("Ixy"))),
  D("e0", V("N") (/) V("EA")),
  D("bxx", N(0) (-) ((V("Ixy") (.) V("Mxx")) (/) V("det"))),
  D("byx", (V("Iyy") (.) V("Mxx")) (/) V("det")),
  D("bxy", N(0) (-) ((V("Ixx") (.) V("Myy")) (/) V("det"))),
  D("byy", (V("Ixy") (.) V("Myy")) (/) V("det")),
  D("qx", V("px") (-) V("cx")), D("qy", V("py") (-) V("cy")),
  D("q11", (V("qx") (.) Cos(V("phi"))) (+) (V("qy") (.) Sin(V("phi")))),
  D("q22", (V("qy") (.) Cos(V("phi"))) (-) (V("qx") (.) Sin(V("phi")))),
  D("sig_zz_n", V("pE") (.) V("e0")),
  D("sig_zz_mxx", V("pE") (.) ((V("bxx") (.) V("qx")) (+) (V("byx") (.) V("qy")))),
  D("sig_zz_myy", V("pE") (.) ((V("bxy") (.) V("qx")) (+) (V("byy") (.) V("qy")))),
  D("sig_zz_m11", V("pE") (.) ((V("M11") (/) V("I11")) (.) V("q22"))),
  D("sig_zz_m22", N(0) (-) (V("pE") (.) ((V("M22") (/) V("I22")) (.) V("q11")))),
  D("sig_zz_m", (V("sig_zz_mxx") (+) V("sig_zz_myy")) (+) (V("sig_zz_m11") (+) V("sig_zz_m22"))),
  D("sig_zz", V("sig_zz_n") (+) V("sig_zz_m"))
>>
(* Resultants of the specified normal stress due to N, Mxx, Myy, exactly, from  *)
(* the integrals over the regions (law: they are the applied actions).         *)
Resultants == <<
  D("bx", V("bxx") (+) V("bxy")), D("by", V("byx") (+) V("byy")),
  D("sX", V("rX") (-) (V("cx") (.) V("rA"))), D("sY", V("rY") (-) (V("cy") (.) V("rA"))),
  D("resN", Sum(V("mE") (.) ((V("e0") (.) V("rA")) (+)
               ((V("bx") (.) V("sX")) (+) (V("by") (.) V("sY")))))),
  D("sXX", (V("rXX") (-) (N(2) (.) V("cx") (.) V("rX"))) (+) (Sq(V("cx")) (.) V("rA"))),
  D("sYY", (V("rYY") (-) (N(2) (.) V("cy") (.) V("rY"))) (+) (Sq(V("cy")) (.) V("rA"))),
  D("sXY", ((V("rXY") (-) (V("cx") (.) V("rY"))) (-) (V("cy") (.) V("rX"))) (+)
           (V("cx") (.) V("cy") (.) V("rA"))),
  D("resMxx", Sum(V("mE") (.) ((V("e0") (.) V("sY")) (+)
               ((V("bx") (.) V("sXY")) (+) (V("by") (.) V("sYY")))))),
  D("resMyy", N(0) (-) Sum(V("mE") (.) ((V("e0") (.) V("sX")) (+)
               ((V("bx") (.) V("sXX")) (+) (V("by") (.) V("sXY"))))))
>>
(* Combined stresses from the contributions (names as reported)               *)
Hyp(a, b) == Sqrt(Sq(a) (+) Sq(b))
Combined == <<
  D("sig_zz_m", (V("sig_zz_mxx") (+) V("sig_zz_myy")) (+) (V("sig_zz_m11") (+) V("sig_zz_m22"))),
  D("sig_zxy_mzz", Hyp(V("sig_zx_mzz"), V("sig_zy_mzz"))),
  D("sig_zxy_vx", Hyp(V("sig_zx_vx"), V("sig_zy_vx"))),
  D("sig_zxy_vy", Hyp(V("sig_zx_vy"), V("sig_zy_vy"))),
  D("sig_zx_v", V("sig_zx_vx") (+) V("sig_zx_vy")),
  D("sig_zy_v", V("sig_zy_vx") (+) V("sig_zy_vy")),
  D("sig_zxy_v", Hyp(V("sig_zx_v"), V("sig_zy_v"))),
  D("sig_zz", V("sig_zz_n") (+) V("sig_zz_m")),
  D("sig_zx", V("sig_zx_mzz") (+) V("sig_zx_v")),
  D("sig_zy", V("sig_zy_mzz") (+) V("sig_zy_v")),
  D("sig_zxy", Hyp(V("sig_zx"), V("sig_zy"))),
  D("rMohr", Hyp(V("sig_zz") (/) N(2), V("sig_zxy"))),
  D("sig_11", (V("sig_zz") (/) N(2)) (+) V("rMohr")),
  D("sig_33", (V("sig_zz") (/) N(2)) (-) V("rMohr")),
  D("sig_vm", Sqrt(Sq(V("sig_zz")) (+) (N(3) (.) Sq(V("sig_zxy")))))
>>
(* Resultants of shear stresses tx, ty at quadrature points ax, ay (about the   *)
(* centroid) with weights aw; sex, sey: the shear centre about the centroid.    *)
ShearResultants == <<
  D("resVx", Sum(V("aw") (.) V("tx"))), D("resVy", Sum(V("aw") (.) V("ty"))),
  D("resT", Sum(V("aw") (.) ((V("ax") (.) V("ty")) (-) (V("ay") (.) V("tx"))))),
  D("wantT", V("Mzz") (+) ((V("Vy") (.) V("sex")) (-) (V("Vx") (.) V("sey"))))
>>
(* Pure torsion is self-equilibrated: against every quadratic warping           *)
TorsionLaws == <<
  D("m_xx", Sum(V("aw") (.) (V("ax") (.) V("tx")))),
  D("m_yy", Sum(V("aw") (.) (V("ay") (.) V("ty")))),
  D("m_xy", Sum(V("aw") (.) ((V("ax") (.) V("ty")) (+) (V("ay") (.) V("tx")))))
>>

Defs == [ placed |-> Placed, weighted |-> Weighted, centroidal |-> Centroidal,
          principal |-> Principal, pmoduli |-> PrincipalModuli,
          firstyield |-> FirstYield, clip |-> Clip, shapegeo |-> ShapeGeo, shapecomp |-> ShapeComp,
          stress |-> Stress, resultants |-> Resultants, combined |-> Combined,
          shearres |-> ShearResultants, torsionlaws |-> TorsionLaws ]
=============================================================================
