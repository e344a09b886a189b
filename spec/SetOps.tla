------------------------------- MODULE SetOps -------------------------------
(***************************************************************************)
(* Set operations on geometries.  A geometry is a sequence of regions, each  *)
(* a connected set of lattice quarters with a material number (0 unclaimed,  *)
(* 9 the default material); a single geometry has one region.  One action     *)
(* per operator, the other operand drawn from a recorded pool.                *)
(***************************************************************************)
EXTENDS Lattice, Json, SequencesExt, IOUtils

CONSTANTS MAXLEN, FIRST     \* FIRST: pool entries an expression may start with
Pool == ndJsonDeserialize(IOEnv.POOLFILE)       \* [lab, mats]

VARIABLES start, geo, single, hist   \* single: a single geometry, not a compound
vars == <<start, geo, single, hist>>

SetOfLab(p, l) == {q \in Quarters : p.lab[q] = l}
RegionsOf(p) ==
    FlattenSeq([l \in 1..3 |->
        LET cs == SetToSeq(Components(SetOfLab(p, l)))
        IN  [n \in 1..Len(cs) |-> [mat |-> p.mats[l], q |-> cs[n]]]])
PoolGeo == TLCEval([n \in 1..Len(Pool) |-> RegionsOf(Pool[n])])

Solid(g) == UNION {g[n].q : n \in 1..Len(g)}
Split(S, m) == LET cs == SetToSeq(Components(S)) IN [n \in 1..Len(cs) |-> [mat |-> m, q |-> cs[n]]]
Minus(g, h) == LET s == Solid(h) IN FlattenSeq([n \in 1..Len(g) |-> Split(g[n].q \ s, g[n].mat)])
(* the material of a single first operand; a compound has none of its own      *)
Own(g) == IF single THEN g[1].mat ELSE 0
Disjoint(g, h) == Solid(g) \cap Solid(h) = {}

Result(op, g, h) ==
    CASE op = "sub" -> Minus(g, h)
      [] op = "or"  -> Split(Solid(g) \cup Solid(h), Own(g))
      [] op = "and" -> Split(Solid(g) \cap Solid(h), Own(g))
      [] op = "xor" -> Split((Solid(g) \ Solid(h)) \cup (Solid(h) \ Solid(g)), Own(g))
      [] op = "add" -> g \o h
Ops == {"sub", "or", "and", "xor", "add"}

Rec(g) ==
    LET s == Solid(g) hs == SetToSeq(HoleComponents(s))
    IN  [ regs  |-> [n \in 1..Len(g) |-> [mat |-> g[n].mat, edges |-> SetToSeq(Boundary(g[n].q)),
                                          area2 |-> SumInt(g[n].q)[1]]],
          \* parts that merely touch in points: no claim on the voids between them
          touching |-> ~Connected(s) /\ ~NoPinch(s),
          holes |-> [n \in 1..Len(hs) |-> SetToSeq(hs[n])] ]

Do(op, k) ==
    LET h == PoolGeo[k] r == Result(op, geo, h)
    IN  /\ op = "add" => Disjoint(geo, h)
        /\ geo # <<>>
        /\ geo' = r
        /\ single' = CASE op = "add" -> FALSE
                       [] op = "sub" -> single /\ Len(r) <= 1
                       [] OTHER -> Len(r) <= 1
        /\ hist' = Append(hist, [op |-> op, k |-> k, res |-> Rec(r)])
        /\ UNCHANGED start

Init == start \in FIRST /\ geo = PoolGeo[start] /\ single = (Len(geo) = 1) /\ hist = <<>>
Next == Len(hist) < MAXLEN /\ \E op \in Ops : \E k \in 1..Len(Pool) : Do(op, k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Area2(g) == SumInt(Solid(g))[1]
RegionsConnected == \A n \in 1..Len(geo) : geo[n].q # {} /\ Connected(geo[n].q)
RegionsDisjoint == Area2(geo) = FoldLeft(LAMBDA a, r : a + SumInt(r.q)[1], 0, geo)
LastStep == hist'[Len(hist')]
InclusionExclusion == [][
    LET h == PoolGeo[LastStep.k] A == Area2(geo) B == Area2(h) R == Area2(geo')
        I == SumInt(Solid(geo) \cap Solid(h))[1]
    IN  CASE LastStep.op = "sub" -> R = A - I
          [] LastStep.op = "or"  -> R = A + B - I
          [] LastStep.op = "and" -> R = I
          [] LastStep.op = "xor" -> R = A + B - 2 * I
          [] LastStep.op = "add" -> R = A + B]_vars
Emit == (Len(hist) < MAXLEN /\ geo # <<>>) \/ hist = <<>>
        \/ PrintT("@@" \o ToJson([start |-> start, hist |-> hist]))
FirstAll == 1..Len(Pool)
FirstFew == 1..(IF Len(Pool) < 6 THEN Len(Pool) ELSE 6)
=============================================================================
