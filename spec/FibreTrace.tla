----------------------------- MODULE FibreTrace -----------------------------
(***************************************************************************)
(* Accepts an exported fibre section token by token.  A record M:            *)
(*   kind   "2D" | "3D" | "3DOS"       main   tag of the section              *)
(*   width  line width asked for        map    <<words of a name, tag>> pairs  *)
(*   els    for every element the words of its material's name                *)
(*   lines  the lines of the text: toks (tokens), nums (the same as numbers,   *)
(*          -1 where they are none), len, comment, cont (ends with a            *)
(*          continuation mark, which is not among the tokens)                   *)
(* One behaviour per record consumes its lines; a line that is not allowed     *)
(* where it stands leads to the phase "bad" with the reason.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.FIBREFILE)

VARIABLES i,      \* the record
          l,      \* lines consumed
          phase,  \* "start", "tags" (in the list of cells), "cells", "end", "bad"
          n,      \* tags listed, or cells described
          why
vars == <<i, l, phase, n, why>>

M == Recs[i]
NEL == Len(M.els)

RECURSIVE JoinW(_)
JoinW(w) == IF Len(w) = 1 THEN w[1] ELSE w[1] \o "-" \o JoinW(Tail(w))

(* a mapping replaces the names it mentions, once                            *)
Material(k) ==
    LET name == JoinW(M.els[k])
        hits == {m \in 1..Len(M.map) : JoinW(M.map[m][1]) = name}
    IN  IF hits = {} THEN name ELSE ToString(M.map[CHOOSE m \in hits : TRUE][2])

Class == "Fibre" \o M.kind
CellClass == "Cell" \o M.kind
NTok == CASE M.kind = "2D" -> 6 [] M.kind = "3D" -> 7 [] M.kind = "3DOS" -> 10
MatAt == CASE M.kind = "3DOS" -> 8 [] OTHER -> 5

Init == i \in 1..Len(Recs) /\ l = 0 /\ phase = "start" /\ n = 0 /\ why = ""

L == M.lines[l + 1]
Bad(r) == phase' = "bad" /\ why' = r /\ UNCHANGED <<i, l, n>>

(* the tags of a line of the list, from position p on, continue the numbering *)
TagsFrom(p) == \A q \in p..Len(L.toks) : L.nums[q] = M.main + n + (q - p + 1)
Fits(p) == L.len <= M.width \/ Len(L.toks) <= p  \* nothing but one tag need not fit

AfterTags(p) ==
    LET m == n + (Len(L.toks) - p + 1) IN
    IF ~TagsFrom(p) THEN Bad("the cells are not listed by consecutive tags from the section's tag on")
    ELSE IF ~Fits(p) THEN Bad("a line of the list is longer than the width")
    ELSE IF L.cont THEN phase' = "tags" /\ n' = m /\ l' = l + 1 /\ UNCHANGED <<i, why>>
    ELSE IF m # NEL THEN Bad("not every element is listed exactly once")
    ELSE phase' = "cells" /\ n' = 0 /\ l' = l + 1 /\ UNCHANGED <<i, why>>

CellLine ==
    IF n >= NEL THEN Bad("more cells than elements")
    ELSE IF Len(L.toks) # NTok \/ L.cont THEN Bad("a cell line of the wrong form")
    ELSE IF L.toks[1] # "section" \/ L.toks[2] # CellClass THEN Bad("a cell of the wrong class")
    ELSE IF L.nums[3] # M.main + n + 1 THEN Bad("a cell with the wrong tag")
    ELSE IF L.toks[MatAt] # Material(n + 1) THEN Bad("a cell with the wrong material")
    ELSE phase' = "cells" /\ n' = n + 1 /\ l' = l + 1 /\ UNCHANGED <<i, why>>

Blank == Len(L.toks) = 0
Step ==
    /\ phase \notin {"end", "bad"}
    /\ IF l = Len(M.lines)
       THEN IF phase = "cells" /\ n = NEL
            THEN phase' = "end" /\ UNCHANGED <<i, l, n, why>>
            ELSE Bad("the text ends early")
       ELSE IF phase \in {"start", "cells"} /\ (Blank \/ L.comment)
            THEN l' = l + 1 /\ UNCHANGED <<i, phase, n, why>>
       ELSE CASE phase = "start" ->
                   IF Len(L.toks) >= 3 /\ L.toks[1] = "section" /\ L.toks[2] = Class /\ L.nums[3] = M.main
                   THEN AfterTags(4) ELSE Bad("the section command is wrong")
              [] phase = "tags" -> AfterTags(1)
              [] phase = "cells" -> CellLine

Next == Step
Spec == Init /\ [][Next]_vars

Emit == phase \notin {"end", "bad"} \/ PrintT("@@" \o ToJson([id |-> M.id, phase |-> phase, why |-> why]))
TypeOK == l <= Len(M.lines) /\ n <= NEL + 1000000
=============================================================================
