----------------------------- MODULE Catalogue -----------------------------
(***************************************************************************)
(* Every retrieval of the library: its form (geo: only for sections without *)
(* materials, comp: only with materials, any), the kind of analysis result   *)
(* it needs, whether it accepts a reference modulus, the quantities it        *)
(* returns in order (names of Formulas or of the recorded values) and the    *)
(* labels under which the result tables show them (<<>>: not shown).         *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC

R(g, form, need, eref, vals, lab, tlab) ==
    [get |-> g, form |-> form, need |-> need, eref |-> eref, vals |-> vals,
     lab |-> lab, tlab |-> tlab]

(* needs: area = geometric or frame analysis, geom = geometric, tors =      *)
(* warping or frame, warp = warping, plast = plastic, shape = plastic with   *)
(* geometric results                                                        *)
Catalogue == <<
 R("get_area", "any", "area", FALSE, <<"A">>, <<"area">>, <<"geom area">>),
 R("get_perimeter", "any", "geom", FALSE, <<"perim">>, <<"perimeter">>, <<"perimeter">>),
 R("get_mass", "comp", "geom", FALSE, <<"mass">>, <<"mass">>, <<"mass">>),
 R("get_ea", "comp", "area", TRUE, <<"EA">>, <<"e.a">>, <<"a">>),
 R("get_q", "geo", "area", FALSE, <<"Qx", "Qy">>, <<"qx", "qy">>, <<>>),
 R("get_eq", "comp", "area", TRUE, <<"Qx", "Qy">>, <<"e.qx", "e.qy">>, <<"qx", "qy">>),
 R("get_ig", "geo", "area", FALSE, <<"IxxG", "IyyG", "IxyG">>,
     <<"ixx_g", "iyy_g", "ixy_g">>, <<>>),
 R("get_eig", "comp", "area", TRUE, <<"IxxG", "IyyG", "IxyG">>,
     <<"e.ixx_g", "e.iyy_g", "e.ixy_g">>, <<"ixx_g", "iyy_g", "ixy_g">>),
 R("get_c", "any", "area", FALSE, <<"cx", "cy">>, <<"cx", "cy">>, <<"cx", "cy">>),
 R("get_ic", "geo", "area", FALSE, <<"Ixx", "Iyy", "Ixy">>,
     <<"ixx_c", "iyy_c", "ixy_c">>, <<>>),
 R("get_eic", "comp", "area", TRUE, <<"Ixx", "Iyy", "Ixy">>,
     <<"e.ixx_c", "e.iyy_c", "e.ixy_c">>, <<"ixx_c", "iyy_c", "ixy_c">>),
 R("get_z", "geo", "geom", FALSE, <<"zxxP", "zxxM", "zyyP", "zyyM">>,
     <<"zxx+", "zxx-", "zyy+", "zyy-">>, <<>>),
 R("get_ez", "comp", "geom", TRUE, <<"zxxP", "zxxM", "zyyP", "zyyM">>,
     <<"e.zxx+", "e.zxx-", "e.zyy+", "e.zyy-">>, <<"zxx+", "zxx-", "zyy+", "zyy-">>),
 R("get_my", "comp", "geom", FALSE, <<"Myx", "Myy">>, <<"my_xx", "my_yy">>, <<"my_xx", "my_yy">>),
 R("get_rc", "any", "geom", FALSE, <<"rx", "ry">>, <<"rx", "ry">>, <<"rx", "ry">>),
 R("get_ip", "geo", "geom", FALSE, <<"I11", "I22">>, <<"i11_c", "i22_c">>, <<>>),
 R("get_eip", "comp", "geom", TRUE, <<"I11", "I22">>, <<"e.i11_c", "e.i22_c">>,
     <<"i11_c", "i22_c">>),
 R("get_phi", "any", "area", FALSE, <<"phi">>, <<"phi">>, <<"phi">>),
 R("get_zp", "geo", "geom", FALSE, <<"z11P", "z11M", "z22P", "z22M">>,
     <<"z11+", "z11-", "z22+", "z22-">>, <<>>),
 R("get_ezp", "comp", "geom", TRUE, <<"z11P", "z11M", "z22P", "z22M">>,
     <<"e.z11+", "e.z11-", "e.z22+", "e.z22-">>, <<"z11+", "z11-", "z22+", "z22-">>),
 R("get_my_p", "comp", "geom", FALSE, <<"My11", "My22">>, <<"my_11", "my_22">>,
     <<"my_11", "my_22">>),
 R("get_rp", "any", "geom", FALSE, <<"r11", "r22">>, <<"r11", "r22">>, <<"r11", "r22">>),
 R("get_e_eff", "comp", "geom", FALSE, <<"Eeff">>, <<"e_eff">>, <<"e_eff">>),
 R("get_g_eff", "comp", "geom", FALSE, <<"Geff">>, <<"g_eff">>, <<"g_eff">>),
 R("get_nu_eff", "comp", "geom", FALSE, <<"nuEff">>, <<"nu_eff">>, <<"nu_eff">>),
 R("get_j", "geo", "tors", FALSE, <<"J">>, <<"j">>, <<>>),
 R("get_ej", "comp", "tors", TRUE, <<"J">>, <<"e.j">>, <<"j">>),
 R("get_sc", "any", "warp", FALSE, <<"xse", "yse">>, <<"x_se", "y_se">>, <<"x_se", "y_se">>),
 R("get_sc_p", "any", "warp", FALSE, <<"x11se", "y22se">>, <<"x1_se", "y2_se">>,
     <<"x1_se", "y2_se">>),
 R("get_sc_t", "any", "warp", FALSE, <<"xst", "yst">>, <<"x_st", "y_st">>, <<"x_st", "y_st">>),
 R("get_gamma", "geo", "warp", FALSE, <<"Gamma">>, <<"gamma">>, <<>>),
 R("get_egamma", "comp", "warp", TRUE, <<"Gamma">>, <<"e.gamma">>, <<"gamma">>),
 R("get_as", "geo", "warp", FALSE, <<"Asx", "Asy">>, <<"a_sx", "a_sy">>, <<>>),
 R("get_eas", "comp", "warp", TRUE, <<"Asx", "Asy">>, <<"e.a_sx", "e.a_sy">>, <<"a_sx", "a_sy">>),
 R("get_as_p", "geo", "warp", FALSE, <<"As11", "As22">>, <<"a_s11", "a_s22">>, <<>>),
 R("get_eas_p", "comp", "warp", TRUE, <<"As11", "As22">>, <<"e.a_s11", "e.a_s22">>,
     <<"a_s11", "a_s22">>),
 R("get_beta", "any", "warp", FALSE, <<"bxP", "bxM", "byP", "byM">>,
     <<"beta_x+", "beta_x-", "beta_y+", "beta_y-">>, <<"beta_x+", "beta_x-", "beta_y+", "beta_y-">>),
 R("get_beta_p", "any", "warp", FALSE, <<"b11P", "b11M", "b22P", "b22M">>,
     <<"beta_11+", "beta_11-", "beta_22+", "beta_22-">>,
     <<"beta_11+", "beta_11-", "beta_22+", "beta_22-">>),
 R("get_pc", "any", "plast", FALSE, <<"xpc", "ypc">>, <<"x_pc", "y_pc">>, <<"x_pc", "y_pc">>),
 R("get_pc_p", "any", "plast", FALSE, <<"x11pc", "y22pc">>, <<"x11_pc", "y22_pc">>,
     <<"x11_pc", "y22_pc">>),
 R("get_s", "geo", "plast", FALSE, <<"Sxx", "Syy">>, <<"sxx", "syy">>, <<>>),
 R("get_mp", "comp", "plast", FALSE, <<"Sxx", "Syy">>, <<"mp_xx", "mp_yy">>, <<"mp_xx", "mp_yy">>),
 R("get_sp", "geo", "plast", FALSE, <<"S11", "S22">>, <<"s11", "s22">>, <<>>),
 R("get_mp_p", "comp", "plast", FALSE, <<"S11", "S22">>, <<"mp_11", "mp_22">>, <<"mp_11", "mp_22">>),
 R("get_sf", "any", "shape", FALSE, <<"sfxP", "sfxM", "sfyP", "sfyM">>,
     <<"sf_xx+", "sf_xx-", "sf_yy+", "sf_yy-">>, <<"sf_xx+", "sf_xx-", "sf_yy+", "sf_yy-">>),
 R("get_sf_p", "any", "shape", FALSE, <<"sf11P", "sf11M", "sf22P", "sf22M">>,
     <<"sf_11+", "sf_11-", "sf_22+", "sf_22-">>, <<"sf_11+", "sf_11-", "sf_22+", "sf_22-">>) >>

(* Dimension of every quantity: powers of length, modulus, yield strength,   *)
(* density; and how it behaves under motions of the plane:                    *)
(*   inv  unchanged by any motion          abs-x/abs-y  global coordinates    *)
(*   see Covariance.tla for the rest                                          *)
DimTable == <<
 <<{"A"}, 2, 0, 0, 0>>, <<{"perim"}, 1, 0, 0, 0>>, <<{"mass"}, 2, 0, 0, 1>>,
 <<{"EA"}, 2, 1, 0, 0>>, <<{"Qx", "Qy"}, 3, 1, 0, 0>>,
 <<{"IxxG", "IyyG", "IxyG", "Ixx", "Iyy", "Ixy", "I11", "I22", "J"}, 4, 1, 0, 0>>,
 <<{"cx", "cy", "rx", "ry", "r11", "r22", "xse", "yse", "x11se", "y22se", "xst", "yst",
    "bxP", "bxM", "byP", "byM", "b11P", "b11M", "b22P", "b22M",
    "xpc", "ypc", "x11pc", "y22pc"}, 1, 0, 0, 0>>,
 <<{"zxxP", "zxxM", "zyyP", "zyyM", "z11P", "z11M", "z22P", "z22M"}, 3, 1, 0, 0>>,
 <<{"Myx", "Myy", "My11", "My22", "Sxx", "Syy", "S11", "S22"}, 3, 0, 1, 0>>,
 <<{"phi", "nuEff", "sfxP", "sfxM", "sfyP", "sfyM", "sf11P", "sf11M", "sf22P", "sf22M"}, 0, 0, 0, 0>>,
 <<{"Eeff", "Geff"}, 0, 1, 0, 0>>, <<{"Gamma"}, 6, 1, 0, 0>>,
 <<{"Asx", "Asy", "As11", "As22"}, 2, 1, 0, 0>> >>

ValNames == UNION {{Catalogue[n].vals[m] : m \in 1..Len(Catalogue[n].vals)} : n \in 1..Len(Catalogue)}
Dim == [v \in ValNames |->
    LET t == CHOOSE k \in 1..Len(DimTable) : v \in DimTable[k][1]
    IN  <<DimTable[t][2], DimTable[t][3], DimTable[t][4], DimTable[t][5]>>]
ASSUME OneDim == \A v \in ValNames :
    Cardinality({k \in 1..Len(DimTable) : v \in DimTable[k][1]}) = 1

(* name of each quantity in the stored property dictionary                   *)
StoreTable == <<
 <<"A", "area">>, <<"perim", "perimeter">>, <<"mass", "mass">>, <<"EA", "ea">>,
 <<"Qx", "qx">>, <<"Qy", "qy">>, <<"IxxG", "ixx_g">>, <<"IyyG", "iyy_g">>, <<"IxyG", "ixy_g">>,
 <<"cx", "cx">>, <<"cy", "cy">>, <<"Ixx", "ixx_c">>, <<"Iyy", "iyy_c">>, <<"Ixy", "ixy_c">>,
 <<"zxxP", "zxx_plus">>, <<"zxxM", "zxx_minus">>, <<"zyyP", "zyy_plus">>, <<"zyyM", "zyy_minus">>,
 <<"Myx", "my_xx">>, <<"Myy", "my_yy">>, <<"rx", "rx_c">>, <<"ry", "ry_c">>,
 <<"I11", "i11_c">>, <<"I22", "i22_c">>, <<"phi", "phi">>,
 <<"z11P", "z11_plus">>, <<"z11M", "z11_minus">>, <<"z22P", "z22_plus">>, <<"z22M", "z22_minus">>,
 <<"My11", "my_11">>, <<"My22", "my_22">>, <<"r11", "r11_c">>, <<"r22", "r22_c">>,
 <<"Eeff", "e_eff">>, <<"Geff", "g_eff">>, <<"nuEff", "nu_eff">>, <<"J", "j">>,
 <<"x11se", "x11_se">>, <<"y22se", "y22_se">>,
 <<"Gamma", "gamma">>, <<"bxP", "beta_x_plus">>, <<"bxM", "beta_x_minus">>,
 <<"byP", "beta_y_plus">>, <<"byM", "beta_y_minus">>, <<"b11P", "beta_11_plus">>,
 <<"b11M", "beta_11_minus">>, <<"b22P", "beta_22_plus">>, <<"b22M", "beta_22_minus">>,
 <<"Sxx", "sxx">>, <<"Syy", "syy">>, <<"S11", "s11">>, <<"S22", "s22">>,
 <<"sfxP", "sf_xx_plus">>, <<"sfxM", "sf_xx_minus">>, <<"sfyP", "sf_yy_plus">>,
 <<"sfyM", "sf_yy_minus">>, <<"sf11P", "sf_11_plus">>, <<"sf11M", "sf_11_minus">>,
 <<"Asx", "a_sx">>, <<"Asy", "a_sy">>, <<"As11", "a_s11">>, <<"As22", "a_s22">>,
 <<"sf22P", "sf_22_plus">>, <<"sf22M", "sf_22_minus">> >>
(* stored relative to the centroid: adding it gives the value retrieved        *)
StoreCentral == <<
 <<"xse", "x_se", "cx">>, <<"yse", "y_se", "cy">>, <<"xst", "x_st", "cx">>,
 <<"yst", "y_st", "cy">>, <<"xpc", "x_pc", "cx">>, <<"ypc", "y_pc", "cy">> >>
(* stored in the principal frame about the centroid                            *)
StoredOtherwise == {"x11pc", "y22pc"}
ASSUME StoreComplete ==
    /\ {StoreTable[n][1] : n \in 1..Len(StoreTable)}
       \cup {StoreCentral[n][1] : n \in 1..Len(StoreCentral)} \cup StoredOtherwise = ValNames
    /\ Cardinality({StoreTable[n][2] : n \in 1..Len(StoreTable)}) = Len(StoreTable)

Analyses == {"G", "F", "W", "P", "PS"}

Satisfied(need, d) ==
    CASE need = "area"  -> "G" \in d \/ "F" \in d
      [] need = "geom"  -> "G" \in d
      [] need = "tors"  -> "W" \in d \/ "F" \in d
      [] need = "warp"  -> "W" \in d
      [] need = "plast" -> "P" \in d
      [] need = "shape" -> "PS" \in d

AvailableDef(f, d) == {n \in 1..Len(Catalogue) :
    Catalogue[n].form \in {"any", f} /\ Satisfied(Catalogue[n].need, d)}

States == {"geo", "comp"} \X SUBSET Analyses
AvailList == {[form |-> x[1], done |-> x[2], avail |-> AvailableDef(x[1], x[2])] : x \in States}

(* more analyses never take a result away; nothing is available at first; no  *)
(* result of the other form is ever available; after everything, all are      *)
ASSUME AvailLaws ==
    LET T == TLCEval([x \in States |-> AvailableDef(x[1], x[2])])
        All == 1..Len(Catalogue)
    IN  /\ \A x \in States : \A d \in SUBSET x[2] : T[<<x[1], d>>] \subseteq T[x]
        /\ \A f \in {"geo", "comp"} : T[<<f, {}>>] = {}
        /\ \A x \in States : \A n \in T[x] : Catalogue[n].form \in {"any", x[1]}
        /\ \A f \in {"geo", "comp"} : \A d \in SUBSET Analyses :
              {"G", "W", "P", "PS"} \subseteq d =>
                 T[<<f, d>>] = {n \in All : Catalogue[n].form \in {"any", f}}
(* every geo-only retrieval has a composite counterpart with the same quantity *)
ASSUME Counterparts == \A n \in 1..Len(Catalogue) : Catalogue[n].form = "geo" =>
    \E m \in 1..Len(Catalogue) : Catalogue[m].form = "comp"
        /\ Catalogue[m].vals = Catalogue[n].vals /\ Catalogue[m].need = Catalogue[n].need

(* labels are unambiguous within one form *)
LabelsOf(form, t) ==
    LET idx == {n \in 1..Len(Catalogue) : Catalogue[n].form \in {"any", form}}
        seqs == {<<n, m>> : n \in idx, m \in 1..4}
    IN  {IF t THEN Catalogue[x[1]].tlab[x[2]] ELSE Catalogue[x[1]].lab[x[2]] :
          x \in {y \in seqs : y[2] <= Len(IF t THEN Catalogue[y[1]].tlab ELSE Catalogue[y[1]].lab)}}
CountLabels(form, t) ==
    LET idx == {n \in 1..Len(Catalogue) : Catalogue[n].form \in {"any", form}}
    IN  Cardinality({<<n, m>> \in idx \X (1..4) :
            m <= Len(IF t THEN Catalogue[n].tlab ELSE Catalogue[n].lab)})
ASSUME UniqueLabels == \A form \in {"geo", "comp"} :
    /\ Cardinality(LabelsOf(form, FALSE)) = CountLabels(form, FALSE)
    /\ form = "comp" => Cardinality(LabelsOf(form, TRUE)) = CountLabels(form, TRUE)
=============================================================================
