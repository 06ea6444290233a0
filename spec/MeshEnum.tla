------------------------------ MODULE MeshEnum ------------------------------
(***************************************************************************)
(* Every mesh of at most MaxFaces faces on NV vertices, built face by      *)
(* face; the bookkeeping of half-edges that an implementation would do is  *)
(* carried along, and the declarative notions of Mesh are checked against  *)
(* it in every state, together with what subdivision preserves.            *)
(***************************************************************************)
EXTENDS Mesh, Json

CONSTANTS NV, MaxFaces, Repeat, SubMax

Triples == {f \in V([nv |-> NV]) \X V([nv |-> NV]) \X V([nv |-> NV]) : f[1] < f[2] /\ f[1] < f[3] /\ f[2] # f[3]}
Code(f) == (f[1] * NV + f[2]) * NV + f[3]

VARIABLES faces, half   \* half: number of times each side is traversed
vars == <<faces, half>>
M == [nv |-> NV, faces |-> faces, cw |-> FALSE]

Init == faces = <<>> /\ half = [e \in V([nv |-> NV]) \X V([nv |-> NV]) |-> 0]
AddFace(f) ==
    /\ Len(faces) < MaxFaces
    /\ Len(faces) > 0 => IF Repeat THEN Code(faces[Len(faces)]) <= Code(f) ELSE Code(faces[Len(faces)]) < Code(f)
    /\ faces' = Append(faces, f)
    /\ half' = [e \in DOMAIN half |-> half[e] + (IF e \in {<<f[1], f[2]>>, <<f[2], f[3]>>, <<f[3], f[1]>>} THEN 1 ELSE 0)]
Next == \E f \in Triples : AddFace(f)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Both(a, b) == half[<<a, b>>] + half[<<b, a>>]
Bookkeeping ==
    /\ EdgeSet(M) = {{e[1], e[2]} : e \in {e \in DOMAIN half : half[e] > 0}}
    /\ Manifold(M) <=> \A e \in DOMAIN half : half[e] <= 1
    /\ Closed(M) <=> \A e \in DOMAIN half : half[e] <= 1 /\ half[e] = half[<<e[2], e[1]>>]
    /\ \A e \in EdgeSet(M) : \A a \in e : \A b \in e \ {a} : Cardinality(EdgeFaces(M, e)) = Both(a, b)
    /\ \A v \in V(M) : \A u \in V(M) \ {v} : u \in Neighbours(M, v) <=> Both(u, v) > 0
    /\ Closed(M) /\ faces # <<>> => 2 * Cardinality(EdgeSet(M)) = 3 * Len(faces) /\ Border(M) = {}
    \* a border has no end: an even number of border edges at each vertex of a manifold mesh
    /\ Manifold(M) => \A v \in V(M) : Cardinality({e \in Border(M) : v \in e}) % 2 = 0
    /\ \A i \in V(M) : LET s == [j \in 1..NV |-> LapEntry(M, i, j - 1)] IN RSum(s) = "0"
ManifoldIsMonotone == [][Manifold(M)' => Manifold(M)]_vars
SubdivisionPreserves ==
    Manifold(M) /\ Simple(M) /\ faces # <<>> /\ Len(faces) <= SubMax =>
      /\ Cardinality(SubFaces(M)) = 4 * Len(faces)
      /\ LET N == TLCEval(Subdivided(M)) IN
           /\ Manifold(N) /\ (Closed(N) <=> Closed(M)) /\ Euler(N) = Euler(M)
           /\ Cardinality(Border(N)) = 2 * Cardinality(Border(M))
           /\ Cardinality(EdgeSet(N)) = 2 * Cardinality(EdgeSet(M)) + 3 * Len(faces)

Emit == faces # <<>> => PrintT("CASE" \o ToJson([nv |-> NV, faces |-> faces]))
=============================================================================
