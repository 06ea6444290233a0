-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Triangulated meshes: topology, normals, silhouettes, the Laplacian      *)
(* energy and Loop subdivision.                                            *)
(*                                                                         *)
(* A mesh M is a record [nv, faces, cw]: nv vertices numbered from 0,      *)
(* faces a sequence of triples of distinct vertices, cw whether faces are  *)
(* clockwise when seen from outside.  Edges are sets of two vertices.      *)
(* Positions are sequences of triples of numbers (vertex v at v + 1).      *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, SequencesExt

F(M) == 1..Len(M.faces)
V(M) == 0..(M.nv - 1)
Corners(M, k) == {M.faces[k][1], M.faces[k][2], M.faces[k][3]}
\* side n of face k joins its corners n and n + 1
Side(M, k, n) == <<M.faces[k][n], M.faces[k][(n % 3) + 1]>>
SideEdge(M, k, n) == {Side(M, k, n)[1], Side(M, k, n)[2]}
EdgeSet(M) == UNION {{SideEdge(M, k, n) : n \in 1..3} : k \in F(M)}
EdgeFaces(M, e) == {k \in F(M) : e \subseteq Corners(M, k)}
Times(M, a, b) == Cardinality({kn \in F(M) \X (1..3) : Side(M, kn[1], kn[2]) = <<a, b>>}) \* sides going from a to b
VertexFaces(M, v) == {k \in F(M) : v \in Corners(M, k)}
Neighbours(M, v) == UNION {Corners(M, k) : k \in VertexFaces(M, v)} \ {v}

Manifold(M) == \A e \in EdgeSet(M) : \A a \in e : \A b \in e \ {a} : Times(M, a, b) <= 1
Closed(M) == Manifold(M) /\ \A e \in EdgeSet(M) : Cardinality(EdgeFaces(M, e)) = 2
Border(M) == {e \in EdgeSet(M) : Cardinality(EdgeFaces(M, e)) = 1}
Simple(M) == \A j, k \in F(M) : Corners(M, j) = Corners(M, k) => j = k
Used(M) == UNION {Corners(M, k) : k \in F(M)}
Euler(M) == Cardinality(Used(M)) - Cardinality(EdgeSet(M)) + Len(M.faces)

RECURSIVE Reach(_, _)
Reach(M, S) == LET T == S \cup UNION {Neighbours(M, v) : v \in S} IN IF T = S THEN S ELSE Reach(M, T)
Connected(M) == M.nv > 0 /\ Reach(M, {0}) = V(M)

LapEntry(M, i, j) == IF i = j THEN Cardinality(Neighbours(M, i)) ELSE IF j \in Neighbours(M, i) THEN -1 ELSE 0

(* ------------------------------ geometry ------------------------------ *)
Sub3(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2]), RSub(a[3], b[3])>>
Add3(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3])>>
Mul3(s, a) == <<RMul(s, a[1]), RMul(s, a[2]), RMul(s, a[3])>>
InnerP(a, b) == RSum(<<RMul(a[1], b[1]), RMul(a[2], b[2]), RMul(a[3], b[3])>>)
Cross3(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                  RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
\* null vectors stay null: a face without area has no normal, nor a vertex that has no other face
Unit(a) == IF \A k \in 1..3 : RSign(a[k]) = 0 THEN <<"0", "0", "0">>
           ELSE LET n == TLCEval(RDiv("1", RSqrt(InnerP(a, a)))) IN TLCEval(Mul3(n, a))
RECURSIVE Sum3(_)
Sum3(S) == IF S = <<>> THEN <<"0", "0", "0">> ELSE Add3(S[1], Sum3(Tail(S)))
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

P(x, v) == x[v + 1]
RawNormal(M, x, k) ==
    LET f == M.faces[k]  n == Cross3(Sub3(P(x, f[2]), P(x, f[1])), Sub3(P(x, f[3]), P(x, f[1])))
    IN  IF M.cw THEN Mul3("-1", n) ELSE n
FaceNormals(M, x) == TLCEval([k \in F(M) |-> Unit(TLCEval(RawNormal(M, x, k)))])
VertexNormal(M, fn, v) == LET ks == Sorted(VertexFaces(M, v)) IN Unit(TLCEval(Sum3([i \in 1..Len(ks) |-> fn[ks[i]]])))

\* six times the enclosed volume, positive when the faces look outside
Volume6(M, x) ==
    LET v == RSum([k \in F(M) |-> InnerP(P(x, M.faces[k][1]), Cross3(P(x, M.faces[k][2]), P(x, M.faces[k][3])))])
    IN  IF M.cw THEN RNeg(v) ELSE v

(* in the image (rows pointing down) a face is visible when it turns the way cw says *)
Turn(M, p, k) == LET f == M.faces[k]  a == P(p, f[1])  b == P(p, f[2])  c == P(p, f[3])
                 IN  RSub(RMul(RSub(b[1], a[1]), RSub(c[2], a[2])), RMul(RSub(b[2], a[2]), RSub(c[1], a[1])))
Visible(M, p, k) == IF M.cw THEN RSign(Turn(M, p, k)) > 0 ELSE RSign(Turn(M, p, k)) < 0
VisibleFaces(M, p) == TLCEval({k \in F(M) : Visible(M, p, k)})
OnSilhouette(M, vis, k, n) == Cardinality(EdgeFaces(M, SideEdge(M, k, n)) \cap vis) = 1

(* ------------------------------ energy ------------------------------ *)
\* the Laplacian applied to a displacement field: degree * own - sum of the neighbours
Lap(M, d) == TLCEval([i \in 1..M.nv |-> LET ns == Sorted(Neighbours(M, i - 1)) IN
                TLCEval(Sub3(Mul3(Len(ns), d[i]), Sum3([j \in 1..Len(ns) |-> P(d, ns[j])])))])
RigidEnergy(M, w, d) == LET l == Lap(M, d) IN RMul(RDiv(w, 2), RSum([i \in 1..M.nv |-> InnerP(l[i], l[i])]))
RigidGradient(M, w, d) == LET g == Lap(M, Lap(M, d)) IN TLCEval([i \in 1..M.nv |-> Mul3(w, g[i])])

(* ---------------------------- subdivision ---------------------------- *)
(* The vertices of the subdivided mesh are the vertices {v} and the edges  *)
(* {a, b} of M; values are given by weights over the vertices of M.        *)
SubVertices(M) == {{v} : v \in V(M)} \cup EdgeSet(M)
SubFaces(M) == UNION {LET a == M.faces[k][1]  b == M.faces[k][2]  c == M.faces[k][3] IN
                      {<<{a}, {a, b}, {a, c}>>, <<{b}, {b, c}, {a, b}>>, <<{c}, {a, c}, {b, c}>>, <<{a, b}, {b, c}, {a, c}>>} : k \in F(M)}
Mean(S, x, n) == Mul3(RDiv("1", n), Sum3(LET s == Sorted(S) IN [i \in 1..Len(s) |-> P(x, s[i])]))
SubPosition(M, x, w) ==
    IF Cardinality(w) = 2
    THEN IF w \in Border(M) THEN Mean(w, x, 2)
         ELSE LET opp == UNION {Corners(M, k) : k \in EdgeFaces(M, w)} \ w
              IN  Add3(Mul3("3/4", Mean(w, x, 2)), Mul3("1/4", Mean(opp, x, 2)))
    ELSE LET v == CHOOSE v \in w : TRUE
             on == {e \in Border(M) : v \in e}
             along == UNION on \ {v}
         IN  IF on # {} THEN Add3(Mul3("3/4", P(x, v)), Mul3("1/4", Mean(along, x, Cardinality(along))))
             ELSE LET ns == Neighbours(M, v) IN
                  IF ns = {} THEN P(x, v)
                  ELSE Add3(Mul3("5/8", P(x, v)), Mul3("3/8", Mean(ns, x, Cardinality(ns))))

\* the subdivided mesh with its vertices numbered: those of M first
Subdivided(M) ==
    LET es == TLCEval(SetToSeq(EdgeSet(M)))
        num(w) == IF Cardinality(w) = 1 THEN CHOOSE v \in w : TRUE ELSE M.nv - 1 + CHOOSE i \in DOMAIN es : es[i] = w
        fq == TLCEval(SetToSeq(SubFaces(M)))
    IN  [M EXCEPT !.nv = M.nv + Cardinality(EdgeSet(M)), !.faces = [i \in DOMAIN fq |-> [c \in 1..3 |-> num(fq[i][c])]]]
=============================================================================
