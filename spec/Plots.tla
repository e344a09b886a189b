------------------------------- MODULE Plots -------------------------------
(***************************************************************************)
(* What the pictures of a section show.  A figure is a sequence of layers;   *)
(* each layer names the quantity it shows and where it shows it.  Drawing is  *)
(* an action on the life of a section (Lifecycle): it is refused or accepted  *)
(* like any call, makes exactly the layers of the request, and changes        *)
(* neither the section nor the figure of another request.                     *)
(***************************************************************************)
EXTENDS Lifecycle

CONSTANT REQS

VARIABLE fig
pvars == <<form, done, hist, fig>>

(* ---- names of the stresses that can be drawn --------------------------- *)
ZZ     == {"n", "mxx", "myy", "m11", "m22", "m"}       \* actions with a normal stress
Shear  == {"mzz", "vx", "vy", "v"}                     \* actions with a shear stress
Whole  == {"zz", "zx", "zy", "zxy", "11", "33", "vm"}  \* of the whole load
(* a drawn name is action_component, a reported one is sig_component_action   *)
Drawn == [x \in {a \o "_zz" : a \in ZZ} \cup {a \o "_" \o c : a \in Shear, c \in {"zx", "zy", "zxy"}} \cup Whole |->
            IF x \in Whole THEN "sig_" \o x
            ELSE IF \E a \in ZZ : x = a \o "_zz"
                 THEN "sig_zz_" \o (CHOOSE a \in ZZ : x = a \o "_zz")
                 ELSE LET p == CHOOSE p \in Shear \X {"zx", "zy", "zxy"} : x = p[1] \o "_" \o p[2]
                      IN  "sig_" \o p[2] \o "_" \o p[1]]
Contours == DOMAIN Drawn
(* arrows: the two shear components whose resultant has that name             *)
Arrows == [x \in {a \o "_zxy" : a \in Shear} \cup {"zxy"} |->
             IF x = "zxy" THEN <<"sig_zx", "sig_zy">>
             ELSE LET a == CHOOSE a \in Shear : x = a \o "_zxy" IN <<"sig_zx_" \o a, "sig_zy_" \o a>>]

ASSUME Injective == \A x, y \in Contours : Drawn[x] = Drawn[y] => x = y
ASSUME Resultants == DOMAIN Arrows \subseteq Contours

(* ---- requests ----------------------------------------------------------- *)
Needs(req) ==      \* the analyses a load case of the request rests on
    CASE req.k \in {"contour", "vector", "mohr"} -> IF req.load = "N" THEN {"G"} ELSE {"W"}
      [] OTHER -> {}
CanDraw(req, d) == CASE req.k = "warping" -> "W" \in d \/ "F" \in d
                     [] OTHER -> Needs(req) \subseteq d

L(what, value, on) == [what |-> what, value |-> value, on |-> on]
Outline == <<L("outline", "mesh", "all")>>
Layers(req, d) ==
    CASE req.k = "contour"   -> <<L("bands", Drawn[req.name], req.mats)>> \o Outline
      [] req.k = "vector"    -> <<L("arrows", Arrows[req.name][1], Arrows[req.name][2])>> \o Outline
      [] req.k = "mohr"      -> <<L("circle", "C1", "23"), L("circle", "C2", "13"), L("circle", "C3", "12"),
                                  L("face", "X-face", "zx"), L("face", "Y-face", "zy"), L("face", "Z-face", "zz")>>
      [] req.k = "warping"   -> (IF req.lines THEN <<L("lines", "omega", "all")>> ELSE <<>>)
                                \o <<L("bands", "omega", "all")>> \o Outline
      [] req.k = "mesh"      -> (IF req.fill THEN <<L("fill", "material", req.mask)>> ELSE <<>>)
                                \o <<L("outline", "mesh", req.mask)>>
      [] req.k = "centroids" -> <<L("fill", "material", "all"), L("outline", "mesh", "all")>>
                                \o (IF d \cap {"G", "F"} # {} THEN <<L("mark", "Elastic centroid", "get_c")>> ELSE <<>>)
                                \o (IF "W" \in d THEN <<L("mark", "Shear centre", "get_sc")>> ELSE <<>>)
                                \o (IF "P" \in d THEN <<L("mark", "Global plastic centroid", "get_pc"),
                                                       L("mark", "Principal plastic centroid", "get_pc_p")>> ELSE <<>>)
                                \o (IF d \cap {"G", "F"} # {} THEN <<L("axis", "11-axis", "phi"), L("axis", "22-axis", "phi+90")>>
                                    ELSE <<>>)
      [] req.k = "geometry"  -> <<L("edges", "facets", "all"), L("mark", "Holes", "holes")>>
                                \o (IF req.cp THEN <<L("mark", "Control Points", "control_points")>> ELSE <<>>)
                                \o (IF req.labels = "all"
                                    THEN <<L("number", "points", "r"), L("number", "facets", "b"),
                                           L("number", "holes", "r"), L("number", "control_points", "b")>>
                                    ELSE IF req.labels = "none" THEN <<>>
                                    ELSE <<L("number", req.labels, "any")>>)

Loads == {"N", "V", "T", "All"}
ReqContour == {[k |-> "contour", name |-> n, load |-> l, mats |-> m, limits |-> lim, norm |-> TRUE] :
                 n \in Contours, l \in {"All"}, m \in {"all", "first", "last"}, lim \in BOOLEAN}
              \cup {[k |-> "contour", name |-> n, load |-> l, mats |-> "all", limits |-> FALSE, norm |-> FALSE] :
                 n \in Contours, l \in {"N", "V", "T"}}
ReqVector  == {[k |-> "vector", name |-> n, load |-> l, norm |-> b] :
                 n \in DOMAIN Arrows, l \in {"V", "T", "All"}, b \in BOOLEAN}
ReqMohr    == {[k |-> "mohr", load |-> l] : l \in Loads}
ReqSection == {[k |-> "warping", lines |-> b] : b \in BOOLEAN}
              \cup {[k |-> "mesh", fill |-> b, mask |-> m] : b \in BOOLEAN, m \in {"all", "some"}}
              \cup {[k |-> "centroids"]}
ReqGeom    == {[k |-> "geometry", labels |-> l, cp |-> b] :
                 l \in {"all", "none", "points", "facets", "holes", "control_points"}, b \in BOOLEAN}
ReqStress  == ReqContour \cup ReqVector \cup ReqMohr
ReqOther   == ReqSection \cup ReqGeom
ReqAll     == ReqStress \cup ReqOther

Nothing == [req |-> [k |-> "none"], ok |-> TRUE, layers |-> <<>>]
InitP == Init /\ fig = Nothing
CallP == Next /\ UNCHANGED fig
DrawP == \E req \in REQS :
            /\ fig = Nothing                      \* one picture at the end of each life
            /\ fig' = [req |-> req, ok |-> CanDraw(req, done[1]),
                       layers |-> IF CanDraw(req, done[1]) THEN Layers(req, done[1]) ELSE <<>>]
            /\ UNCHANGED <<form, done, hist>>
NextP == (fig = Nothing /\ CallP) \/ DrawP
SpecP == InitP /\ [][NextP]_pvars

(* a refused picture shows nothing; an accepted one shows nothing that is not available *)
InvRefused == ~fig.ok => fig.layers = <<>>
InvAvailable == \A i \in 1..Len(fig.layers) :
                   /\ fig.layers[i].what = "bands" /\ fig.layers[i].value = "omega" => done[1] \cap {"W", "F"} # {}
                   /\ fig.layers[i].what \in {"arrows", "circle"} => done[1] \cap {"G", "W"} # {}
                   /\ fig.layers[i].value = "Shear centre" => "W" \in done[1]
                   /\ fig.layers[i].what = "axis" => done[1] \cap {"G", "F"} # {}
(* every other life is the same with and without pictures                     *)
DrawingChangesNothing == [][fig' # fig => UNCHANGED <<form, done, hist>>]_pvars
EmitP == fig = Nothing \/ PrintT("@@" \o ToJson([form |-> form, hist |-> hist, fig |-> fig]))
=============================================================================
