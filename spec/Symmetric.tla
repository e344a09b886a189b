----------------------------- MODULE Symmetric -----------------------------
(***************************************************************************)
(* Sections with a symmetry: filled like any other, but a cell whose image  *)
(* is already filled receives the image's filling.  SYM: "x" mirrored left   *)
(* to right, "y" mirrored bottom to top, "xy" both, "rot" half a turn.       *)
(***************************************************************************)
EXTENDS SectionCases

CONSTANT SYM

ASSUME GridSymmetric ==
    /\ \A a \in 1..(NX + 1) : GX[a] + GX[NX + 2 - a] = GX[1] + GX[NX + 1]
    /\ \A a \in 1..(NY + 1) : GY[a] + GY[NY + 2 - a] = GY[1] + GY[NY + 1]

MirX(q) == LET n == CellOf(q) p == PartOf(q) IN
    Quarter(NX + 1 - CellI(n), CellJ(n), CASE p = 2 -> 4 [] p = 4 -> 2 [] OTHER -> p)
MirY(q) == LET n == CellOf(q) p == PartOf(q) IN
    Quarter(CellI(n), NY + 1 - CellJ(n), CASE p = 1 -> 3 [] p = 3 -> 1 [] OTHER -> p)
Images(q) == CASE SYM = "x"   -> {MirX(q)}
               [] SYM = "y"   -> {MirY(q)}
               [] SYM = "xy"  -> {MirX(q), MirY(q), MirX(MirY(q))}
               [] SYM = "rot" -> {MirX(MirY(q))}
ImagesAt == TLCEval([q \in Quarters |-> Images(q)])

Matches(c) ==
    LET n == k + 1 IN
    \A q \in {r \in Quarters : CellOf(r) = n} : \A m \in ImagesAt[q] :
        /\ (CellOf(m) < n => c[PartOf(q)] = lab[m])
        /\ (CellOf(m) = n => c[PartOf(q)] = c[PartOf(m)])

SymNext == k < NCells /\ \E c \in CodesAt(k + 1) : Matches(c) /\ Fill(c)
SymSpec == Init /\ [][SymNext]_vars

EmitSym == ~Complete \/ PrintT("@@" \o ToJson([case |-> CaseRec, sym |-> SYM]))

----------------------------------------------------------------------------
(* The symmetric section's integrals: first moments follow from the area and *)
(* the product of inertia about the centre vanishes (doubled coordinates).    *)
Mx2 == GX[1] + GX[NX + 1]
My2 == GY[1] + GY[NY + 1]
LawSymmetric == Complete =>
    LET t == SumInt(Solid) IN
    /\ \A q \in Quarters : \A m \in ImagesAt[q] : lab[q] = lab[m]
    \* t[2] = 6 INT x, t[1] = 2 A : x = Mx2/2
    /\ SYM \in {"x", "xy", "rot"} => 2 * t[2] = 3 * Mx2 * t[1]
    /\ SYM \in {"y", "xy", "rot"} => 2 * t[3] = 3 * My2 * t[1]
    \* 24 INT xy = 24 A cx cy
    /\ SYM \in {"x", "y", "xy"} => 3 * t[6] * t[1] = 4 * t[2] * t[3]

CSym2 == CHalf2 \cup Thirds(1, 0) \cup Thirds(0, 1) \cup Thirds(1, 2) \cup Thirds(2, 1)
CodesSym(n) == CSym2
=============================================================================
