------------------------------ MODULE Warping ------------------------------
(***************************************************************************)
(* Torsion, shear and warping: the boundary value problems as weak forms     *)
(* over a mesh, and the results as integrals of their solutions.  Lists are  *)
(* over quadrature points (exact for the degree of the integrand); ax, ay     *)
(* are coordinates about the elastic centroid, aw weights times modulus.      *)
(* nu is the effective Poisson's ratio (0 for sections without materials).    *)
(*                                                                            *)
(* Each problem: find u with  INT E grad u . grad v                            *)
(*                          = INT E (gx dv/dx + gy dv/dy + s v)  for all v.    *)
(* om: Saint-Venant warping function; psi, phi: Pilkey's shear functions.      *)
(***************************************************************************)
EXTENDS Formulas

WX == V("ax")
WY == V("ay")

Loads == <<
  D("det", (V("Ixx") (.) V("Iyy")) (-) Sq(V("Ixy"))),
  D("q2", Sq(WX) (-) Sq(WY)), D("q11", N(2) (.) (WX (.) WY)),
  D("hn", V("nu") (/) N(2)), D("tn", N(2) (.) (N(1) (+) V("nu"))),
  D("d1", (V("Ixx") (.) V("q2")) (-) (V("Ixy") (.) V("q11"))),
  D("d2", (V("Ixy") (.) V("q2")) (+) (V("Ixx") (.) V("q11"))),
  D("e1", (V("Iyy") (.) V("q11")) (-) (V("Ixy") (.) V("q2"))),
  D("e2", N(0) (-) ((V("Iyy") (.) V("q2")) (+) (V("Ixy") (.) V("q11")))),
  D("om_gx", WY), D("om_gy", N(0) (-) WX), D("om_s", N(0) (.) WX),
  D("psi_gx", V("hn") (.) V("d1")), D("psi_gy", V("hn") (.) V("d2")),
  D("psi_s", V("tn") (.) ((V("Ixx") (.) WX) (-) (V("Ixy") (.) WY))),
  D("phi_gx", V("hn") (.) V("e1")), D("phi_gy", V("hn") (.) V("e2")),
  D("phi_s", V("tn") (.) ((V("Iyy") (.) WY) (-) (V("Ixy") (.) WX)))
>>

(* om, psi, phi: values; om_x, om_y, ..: gradients of the solutions            *)
Solved == <<
  \* strain energy of unit twist
  D("J", Sum(V("aw") (.) (Sq(V("om_x") (-) WY) (+) Sq(V("om_y") (+) WX)))),
  D("Ip", V("Ixx") (+) V("Iyy")),
  D("Qom", Sum(V("aw") (.) V("om"))), D("Iom", Sum(V("aw") (.) Sq(V("om")))),
  D("Ixom", Sum(V("aw") (.) (WX (.) V("om")))), D("Iyom", Sum(V("aw") (.) (WY (.) V("om")))),
  D("Ds", V("tn") (.) V("det")),
  D("r2", Sq(WX) (+) Sq(WY)),
  D("sxi", Sum(V("aw") (.) (((V("Iyy") (.) WX) (+) (V("Ixy") (.) WY)) (.) V("r2")))),
  D("syi", Sum(V("aw") (.) (((V("Ixx") (.) WY) (+) (V("Ixy") (.) WX)) (.) V("r2")))),
  D("tphi", Sum(V("aw") (.) ((WY (.) V("phi_x")) (-) (WX (.) V("phi_y"))))),
  D("tpsi", Sum(V("aw") (.) ((WY (.) V("psi_x")) (-) (WX (.) V("psi_y"))))),
  \* shear centre about the centroid: unit shear in one direction through it
  \* causes no twist
  D("xs", ((V("hn") (.) V("sxi")) (-) V("tphi")) (/) V("Ds")),
  D("ys", ((V("hn") (.) V("syi")) (+) V("tpsi")) (/) V("Ds")),
  \* Trefftz: about it the warping has no first moments
  D("xt", ((V("Ixy") (.) V("Ixom")) (-) (V("Iyy") (.) V("Iyom"))) (/) V("det")),
  D("yt", ((V("Ixx") (.) V("Ixom")) (-) (V("Ixy") (.) V("Iyom"))) (/) V("det")),
  D("Gamma", ((V("Iom") (-) (Sq(V("Qom")) (/) V("EA"))) (-) (V("ys") (.) V("Ixom")))
             (+) (V("xs") (.) V("Iyom"))),
  D("xse", V("xs") (+) V("cx")), D("yse", V("ys") (+) V("cy")),
  D("xst", V("xt") (+) V("cx")), D("yst", V("yt") (+) V("cy")),
  D("x11se", (V("xs") (.) Cos(V("phiA"))) (+) (V("ys") (.) Sin(V("phiA")))),
  D("y22se", (V("ys") (.) Cos(V("phiA"))) (-) (V("xs") (.) Sin(V("phiA")))),
  \* shear strain energy of unit shear forces
  D("sx_x", V("psi_x") (-) (V("hn") (.) V("d1"))), D("sx_y", V("psi_y") (-) (V("hn") (.) V("d2"))),
  D("sy_x", V("phi_x") (-) (V("hn") (.) V("e1"))), D("sy_y", V("phi_y") (-) (V("hn") (.) V("e2"))),
  D("kxx", Sum(V("aw") (.) (Sq(V("sx_x")) (+) Sq(V("sx_y"))))),
  D("kyy", Sum(V("aw") (.) (Sq(V("sy_x")) (+) Sq(V("sy_y"))))),
  D("kxy", Sum(V("aw") (.) ((V("sx_x") (.) V("sy_x")) (+) (V("sx_y") (.) V("sy_y"))))),
  D("ca", Cos(V("phiA"))), D("sa", Sin(V("phiA"))),
  D("k11", ((Sq(V("ca")) (.) V("kxx")) (+) (Sq(V("sa")) (.) V("kyy")))
           (+) (N(2) (.) ((V("ca") (.) V("sa")) (.) V("kxy")))),
  D("k22", ((Sq(V("sa")) (.) V("kxx")) (+) (Sq(V("ca")) (.) V("kyy")))
           (-) (N(2) (.) ((V("ca") (.) V("sa")) (.) V("kxy")))),
  D("Asx", Sq(V("Ds")) (/) V("kxx")), D("Asy", Sq(V("Ds")) (/) V("kyy")),
  D("As11", Sq(V("Ds")) (/) V("k11")), D("As22", Sq(V("Ds")) (/) V("k22")),
  \* monosymmetry constants, about the axes and the principal axes
  D("u1", (WX (.) V("ca")) (+) (WY (.) V("sa"))), D("u2", (WY (.) V("ca")) (-) (WX (.) V("sa"))),
  D("bxP", (N(2) (.) V("ys")) (-) (Sum(V("aw") (.) (WY (.) V("r2"))) (/) V("Ixx"))),
  D("byP", (N(2) (.) V("xs")) (-) (Sum(V("aw") (.) (WX (.) V("r2"))) (/) V("Iyy"))),
  D("b11P", (N(2) (.) V("y22se")) (-) (Sum(V("aw") (.) (V("u2") (.) V("r2"))) (/) V("I11"))),
  D("b22P", (N(2) (.) V("x11se")) (-) (Sum(V("aw") (.) (V("u1") (.) V("r2"))) (/) V("I22"))),
  D("bxM", N(0) (-) V("bxP")), D("byM", N(0) (-) V("byP")),
  D("b11M", N(0) (-) V("b11P")), D("b22M", N(0) (-) V("b22P"))
>>

(* Shear flow of the specified solutions at points ax, ay of modulus pE: torque *)
(* Mzz about the shear centre, shear forces Vx, Vy through it.                  *)
ShearStress == <<
  D("sig_zx_mzz", ((V("pE") (.) V("Mzz")) (/) V("J")) (.) (V("om_x") (-) WY)),
  D("sig_zy_mzz", ((V("pE") (.) V("Mzz")) (/) V("J")) (.) (V("om_y") (+) WX)),
  D("sig_zx_vx", ((V("pE") (.) V("Vx")) (/) V("Ds")) (.) V("sx_x")),
  D("sig_zy_vx", ((V("pE") (.) V("Vx")) (/) V("Ds")) (.) V("sx_y")),
  D("sig_zx_vy", ((V("pE") (.) V("Vy")) (/) V("Ds")) (.) V("sy_x")),
  D("sig_zy_vy", ((V("pE") (.) V("Vy")) (/) V("Ds")) (.) V("sy_y"))
>>

(* What holds of the results whatever the mesh: slack terms, non-negative       *)
WarpLaws == <<
  D("J positive", V("J")),
  D("J at most the polar second moment", V("Ip") (-) V("J")),
  D("Gamma not negative", V("Gamma")),
  D("shear area x positive", V("Asx")), D("shear area y positive", V("Asy")),
  D("shear area 11 positive", V("As11")), D("shear area 22 positive", V("As22")),
  D("shear area x at most the area", V("EA") (-) V("Asx")),
  D("shear area y at most the area", V("EA") (-) V("Asy")),
  D("shear area 11 at most the area", V("EA") (-) V("As11")),
  D("shear area 22 at most the area", V("EA") (-) V("As22")),
  \* the sum of the reciprocals is invariant under rotation of the axes
  D("shear areas invariant +", (V("inv1") (-) V("inv2")) (+) ((V("inv1") (+) V("inv2")) (/) N(1000000))),
  D("shear areas invariant -", (V("inv2") (-) V("inv1")) (+) ((V("inv1") (+) V("inv2")) (/) N(1000000)))
>>

(* Fibre cells.  One per element with corners x1, y1 .. y3: area and middle; the  *)
(* warping function of torsion about the origin (solved with ax, ay about it),   *)
(* without axial resultant, and its derivatives at the middle (om, om_x, om_y).   *)
FibreCells == <<
  D("cellA", Abs(((V("x2") (-) V("x1")) (.) (V("y3") (-) V("y1")))
            (-) ((V("y2") (-) V("y1")) (.) (V("x3") (-) V("x1")))) (/) N(2)),
  D("cellY", ((V("x1") (+) V("x2")) (+) V("x3")) (/) N(3)),
  D("cellZ", ((V("y1") (+) V("y2")) (+) V("y3")) (/) N(3)) >>
(* Sums over the cells of one material (lists qA, qY, qZ of the exported numbers)  *)
FibreSums == <<
  D("fA", Sum(V("qA"))), D("fY", Sum(V("qA") (.) V("qY"))), D("fZ", Sum(V("qA") (.) V("qZ"))) >>

(* Known solutions: rectangles b x h of unit modulus.  J = c b h^3 for b >= h    *)
(* with c(b/h) from the Fourier series (to 1e-9); with nu = 0 both shear areas   *)
(* are 5/6 A and the shear centre is the centroid.                               *)
KnownJ == << <<1, 140577015>>, <<2, 228681677>>, <<3, 263316931>>, <<4, 280812958>>,
             <<5, 291316754>>, <<10, 312325037>> >>   \* times 1e-9

WarpDefs == [ loads |-> Loads, solved |-> Solved, shearstress |-> ShearStress, warplaws |-> WarpLaws,
              fibrecells |-> FibreCells, fibresums |-> FibreSums ]
=============================================================================
