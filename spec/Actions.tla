------------------------------ MODULE Actions ------------------------------
(***************************************************************************)
(* Design actions on a cross-section.  A behaviour is a sequence of loads,    *)
(* each a vector over the eight actions: a single action, a sum of two        *)
(* earlier loads, or a multiple of an earlier one.  Stress is a linear        *)
(* function of the load, so how a load came about says what its stresses are. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS MAXLEN, ACTS, SIZES, FACTORS

AllActs == {"n", "vx", "vy", "mxx", "myy", "m11", "m22", "mzz"}
Zero == [a \in AllActs |-> 0]

VARIABLE loads      \* sequence of [how, i, j, c, load]
vars == <<loads>>

Ld(i) == loads[i].load
Add(v, w) == [a \in AllActs |-> v[a] + w[a]]
Mul(c, v) == [a \in AllActs |-> c * v[a]]

Single == \E a \in ACTS, c \in SIZES :
    loads' = Append(loads, [how |-> "single", act |-> a, i |-> 0, j |-> 0, c |-> c,
                            load |-> [Zero EXCEPT ![a] = c]])
SumOf == \E i, j \in 1..Len(loads) :
    /\ i < j
    /\ loads' = Append(loads, [how |-> "sum", act |-> "", i |-> i, j |-> j, c |-> 0,
                               load |-> Add(Ld(i), Ld(j))])
Scale == \E i \in 1..Len(loads), c \in FACTORS :
    loads' = Append(loads, [how |-> "scale", act |-> "", i |-> i, j |-> 0, c |-> c,
                            load |-> Mul(c, Ld(i))])
(* everything at once *)
Full == \E c \in SIZES :
    /\ loads' = Append(loads, [how |-> "full", act |-> "", i |-> 0, j |-> 0, c |-> c,
                               load |-> [a \in AllActs |-> IF a \in ACTS THEN c ELSE 0]])

Init == loads = <<>>
Next == Len(loads) < MAXLEN /\ (Single \/ SumOf \/ Scale \/ Full)
Spec == Init /\ [][Next]_vars

(* every load is the sum of its single actions *)
Combination == \A k \in 1..Len(loads) :
    LET e == loads[k] IN
    /\ e.how = "sum" => \A a \in AllActs : e.load[a] = loads[e.i].load[a] + loads[e.j].load[a]
    /\ e.how = "scale" => \A a \in AllActs : e.load[a] = e.c * loads[e.i].load[a]
    /\ \A a \in AllActs \ ACTS : e.load[a] = 0
Emit == Len(loads) < MAXLEN \/ PrintT("@@" \o ToJson([loads |-> loads]))

Sizes == {1, -2}
Factors == {3, -1}
ShearActs == {"vx", "vy", "mzz"}
Normal == {"n", "mxx", "myy", "m11", "m22"}
=============================================================================
