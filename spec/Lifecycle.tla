----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of one or more Section objects: which analyses have completed,   *)
(* which requests are answered and which are refused.  One action per public *)
(* call; refused calls are actions too (they change nothing).  Values are    *)
(* not variables: in this specification the value of a result is a function  *)
(* of the section alone, so the implementation's values must be the same      *)
(* whenever they are available, in every behaviour.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS NSEC, MAXLEN, OPS, FORMS

(* a call made with progress information turned on is the call                *)
TimedOf == [ GeomTimed |-> "Geom", WarpTimed |-> "Warp", WarpCgsTimed |-> "WarpCgs", FrameTimed |-> "Frame",
             FrameCgsTimed |-> "FrameCgs", PlasticTimed |-> "Plastic", StressVTimed |-> "StressV",
             StressNTimed |-> "StressN" ]
Untimed(op) == IF op \in DOMAIN TimedOf THEN TimedOf[op] ELSE op

VARIABLES form, done, hist
vars == <<form, done, hist>>

Sections == 1..NSEC

Init == /\ form \in [Sections -> FORMS]
        /\ done = [s \in Sections |-> {}]
        /\ hist = <<>>

(* what each call requires, and what it adds when it is accepted             *)
AcceptedU(op, f, d) ==
    CASE op = "Geom"                         -> TRUE
      [] op \in {"Frame", "FrameCgs"}        -> TRUE
      [] op \in {"Warp", "WarpCgs"}          -> "G" \in d
      [] op \in {"Plastic", "PlasticVerbose"}-> "G" \in d \/ "F" \in d
      [] op \in {"WarpBad", "FrameBad"}      -> FALSE
      [] op \in {"StressN", "PointsN"}       -> "G" \in d
      [] op \in {"StressV", "StressT", "PointsV", "PointsT"} -> "W" \in d
      [] op = "DisplayT"                     -> f = "comp"
      [] op = "PlotWarp"                     -> "W" \in d \/ "F" \in d
      [] OTHER                               -> TRUE

Accepted(op, f, d) == AcceptedU(Untimed(op), f, d)

AddsU(op, d) ==
    CASE op = "Geom"                         -> {"G"}
      [] op \in {"Frame", "FrameCgs"}        -> {"F"}
      [] op \in {"Warp", "WarpCgs"}          -> {"W"}
      [] op \in {"Plastic", "PlasticVerbose"}-> IF "G" \in d THEN {"P", "PS"} ELSE {"P"}
      [] OTHER                               -> {}

Adds(op, d) == AddsU(Untimed(op), d)

Call(s, op) ==
    LET ok == Accepted(op, form[s], done[s])
        d2 == IF ok THEN done[s] \cup Adds(op, done[s]) ELSE done[s]
    IN  /\ done' = [done EXCEPT ![s] = d2]
        /\ hist' = Append(hist, [s |-> s, op |-> op, ok |-> ok, done |-> d2])
        /\ UNCHANGED form

Next == Len(hist) < MAXLEN /\ \E s \in Sections : \E op \in OPS : Call(s, op)
Spec == Init /\ [][Next]_vars
NoHist == <<form, done>>

----------------------------------------------------------------------------
Monotone == [][\A s \in Sections : done[s] \subseteq done'[s]]_vars
RefusedChangesNothing ==
    [][(Len(hist') > Len(hist) /\ ~hist'[Len(hist')].ok) => done' = done]_vars
OthersUntouched ==
    [][\A s \in Sections : (Len(hist') > Len(hist) /\ hist'[Len(hist')].s # s)
                              => done'[s] = done[s]]_vars
InvWarpNeedsGeom == \A s \in Sections : "W" \in done[s] => "G" \in done[s]
InvShape == \A s \in Sections : "PS" \in done[s] => {"P", "G"} \subseteq done[s]
Emit == Len(hist) < MAXLEN \/ PrintT("@@" \o ToJson([form |-> form, hist |-> hist]))

----------------------------------------------------------------------------
OpsMut  == {"Geom", "Frame", "Warp", "Plastic"}
OpsGate == OpsMut \cup {"WarpBad", "FrameBad", "StressN", "StressV", "StressT",
                        "PointsN", "PointsV", "PointsT", "DisplayT", "Display", "Store"}
OpsTab  == OpsMut
OpsHist == OpsGate \cup DOMAIN TimedOf \cup {"WarpCgs", "FrameCgs", "PlasticVerbose",
                         "Fibre2D", "Fibre3DOS", "MeshInfo", "PlotMesh", "PlotCent", "PlotWarp",
                         "PlotStress", "PlotVector", "PlotMohr", "PlotGeom", "Remesh", "Twin", "GeomOps"}
FormsBoth == {"geo", "comp"}
=============================================================================
