----------------------------- MODULE MeshTrace -----------------------------
(***************************************************************************)
(* Decides whether recorded meshes are faithful partitions of their          *)
(* geometries.  One state per recorded mesh.                                  *)
(*                                                                           *)
(* A set of positively oriented triangles is an exact partition of a region   *)
(* if and only if its boundary as a chain equals the boundary of the region:  *)
(* every directed edge occurs once, the edges whose reverse does not occur     *)
(* are exactly the region's outline (cut at the mesh nodes on it).            *)
(*                                                                           *)
(* A record m:  tris     <<a, b, c, ab, bc, ca>> node numbers                 *)
(*              reg      region number of each triangle (as meshed)           *)
(*              pos      orientation of each triangle is positive             *)
(*              over     triangle exceeds its region's area limit             *)
(*              mat      material index the section uses for it               *)
(*              want     material index of each region                        *)
(*              outline  for every region, closed node chains, region left    *)
(*              mids     mid nodes lie at the middle of their edge            *)
(*              xy       integer coordinates of nodes (doubled), or <<>>      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Meshes == ndJsonDeserialize(IOEnv.MESHFILE)
VARIABLE i
Init == i \in 1..Len(Meshes)
Next == FALSE
Spec == Init /\ [][Next]_i

M == Meshes[i]
T == 1..Len(M.tris)
EdgeOf(t, k) == <<M.tris[t][k], M.tris[t][(k % 3) + 1]>>
EdgesOf(S) == {EdgeOf(t, k) : t \in S, k \in 1..3}
Rev(e) == <<e[2], e[1]>>
InReg(r) == {t \in T : M.reg[t] = r}
Bnd(S) == LET E == EdgesOf(S) IN {e \in E : Rev(e) \notin E}
ChainEdges(c) == {<<c[k], c[IF k = Len(c) THEN 1 ELSE k + 1]>> : k \in 1..Len(c)}
OutlineEdges(r) == UNION {ChainEdges(M.outline[r][k]) : k \in 1..Len(M.outline[r])}

PRegions == {M.reg[t] : t \in T} = 1..Len(M.outline)
PPositive == \A t \in T : M.pos[t]
(* no part is covered twice: a directed edge belongs to one triangle only    *)
POnce == Cardinality(EdgesOf(T)) = 3 * Len(M.tris)
(* each region's elements have exactly the region's outline as boundary       *)
POutline == \A r \in 1..Len(M.outline) : Bnd(InReg(r)) = OutlineEdges(r)
(* neighbours share the mid node, and no two edges share one                  *)
PMids ==
    LET mids == {<<{M.tris[t][k], M.tris[t][(k % 3) + 1]}, M.tris[t][3 + k]>> : t \in T, k \in 1..3}
        edges == {x[1] : x \in mids}
        nodes == {x[2] : x \in mids}
        corners == UNION edges
    IN  /\ Cardinality(mids) = Cardinality(edges)
        /\ Cardinality(nodes) = Cardinality(edges)
        /\ nodes \cap corners = {}
        /\ M.mids
PLimit == \A t \in T : ~M.over[t]
PMaterial == \A t \in T : M.mat[t] = M.want[M.reg[t]]
(* where the nodes are integers: orientation and total area once more, exactly *)
Cross(t) ==
    LET P(k) == M.xy[M.tris[t][k]]
    IN  (P(2)[1] - P(1)[1]) * (P(3)[2] - P(1)[2]) - (P(3)[1] - P(1)[1]) * (P(2)[2] - P(1)[2])
RECURSIVE SumCross(_)
SumCross(n) == IF n = 0 THEN 0 ELSE Cross(n) + SumCross(n - 1)
PExact == M.xy = <<>> \/ (/\ \A t \in T : Cross(t) > 0
                          /\ SumCross(Len(M.tris)) = M.area8)

Failing == {x \in {"regions", "orientation", "overlap", "outline", "mid nodes",
                   "area limit", "material", "exact area"} :
   CASE x = "regions" -> ~PRegions [] x = "orientation" -> ~PPositive
     [] x = "overlap" -> ~POnce [] x = "outline" -> ~POutline
     [] x = "mid nodes" -> ~PMids [] x = "area limit" -> ~PLimit
     [] x = "material" -> ~PMaterial [] x = "exact area" -> ~PExact}

Emit == LET f == Failing IN PrintT("@@" \o ToJson([id |-> M.id, fails |-> f]))
=============================================================================
