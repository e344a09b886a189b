------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Everything of the specification that is data rather than behaviour: the  *)
(* formulas, the placements, the materials, and which retrieval reports     *)
(* which quantity.  Printed once for the conformance harness.                *)
(***************************************************************************)
EXTENDS Warping, CovTerms, Catalogue

(* x' = (a x + b y)/d + tx ; all are similarities (a,b,c,e)/d *)
P(a, b, c, e, d, tx, ty) == [a |-> a, b |-> b, c |-> c, e |-> e, d |-> d, tx |-> tx, ty |-> ty]
Placements == <<
  P(1, 0, 0, 1, 1, 0, 0),            \* as drawn
  P(3, -4, 4, 3, 5, 7, -11),         \* rotated 53.13 deg
  P(0, -1, 1, 0, 1, 0, 30),          \* rotated 90
  P(-1, 0, 0, 1, 1, -5, 3),          \* mirrored
  P(4, 3, 3, -4, 5, 0, 0),           \* mirrored about an oblique line
  P(1, 0, 0, 1, 100, 2, 1),          \* a hundredth of the size
  P(20, 0, 0, 20, 1, -700, 150),     \* twenty times the size
  P(5, 12, -12, 5, 13, 100, 40),     \* rotated -67.38 deg
  P(1, 0, 0, 1, 1, -3000, 2000),     \* far away
  P(-12, 5, -5, -12, 13, 1, 1) >>

(* rationals as <<num, den>> *)
M(n, E, nu, fy, rho) == [name |-> n, E |-> E, nu |-> nu, fy |-> fy, rho |-> rho]
Materials == <<
  M("steel",    <<200000, 1>>, <<3, 10>>,  <<250, 1>>, <<785, 100000000>>),
  M("concrete", <<30000, 1>>,  <<1, 5>>,   <<40, 1>>,  <<24, 10000000>>),
  M("timber",   <<8000, 1>>,   <<7, 20>>,  <<20, 1>>,  <<65, 100000000>>),
  M("alu",      <<70000, 1>>,  <<33, 100>>,<<270, 1>>, <<27, 10000000>>),
  M("soft",     <<25, 2>>,     <<0, 1>>,   <<1, 2>>,   <<3, 1>>),
  M("twin",     <<200000, 1>>, <<3, 10>>,  <<500, 1>>, <<785, 100000000>>),
  M("steel",    <<60000, 1>>,  <<1, 4>>,   <<300, 1>>, <<0, 1>>) >>      \* another of the name

(* label -> material index; 0 = the default material (geometric only when   *)
(* all are)                                                                 *)
Schemes == << <<0, 0, 0>>, <<1, 2, 3>>, <<2, 1, 4>>, <<3, 5, 1>>, <<1, 1, 1>>,
              <<4, 4, 2>>, <<1, 6, 1>>, <<5, 5, 5>>, <<6, 3, 3>>,
              <<1, 7, 2>>, <<7, 1, 3>>, <<0, 5, 0>>, <<5, 0, 5>> >>

Tab == [ defs |-> Defs @@ WarpDefs @@ CovDefs, knownj |-> KnownJ, placements |-> Placements, materials |-> Materials,
         schemes |-> Schemes, catalogue |-> Catalogue, dim |-> Dim, avail |-> AvailList, store |-> StoreTable,
         storec |-> StoreCentral ]

(* Every reported value has a covariance rule (phi: the angle itself).        *)
Names(ds) == {ds[n].name : n \in 1..Len(ds)}
ASSUME Covered == ValNames \ (Names(CovAny) \cup Names(CovPrincipal) \cup Names(CovAxes)) \subseteq {"phi"}

ASSUME PrintT("@@" \o ToJson(Tab))

VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
