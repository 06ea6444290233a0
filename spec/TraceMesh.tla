----------------------------- MODULE TraceMesh ------------------------------
(***************************************************************************)
(* Validates what real meshes computed against Mesh.  A trace holds the    *)
(* mesh (tr.m), positions tr.x where they matter, what the code returned,  *)
(* and is judged by tr.op: "topology", "volume", "normals", "silhouette",  *)
(* "rigid", "subdivide".                                                   *)
(***************************************************************************)
EXTENDS Mesh, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, pc
vars == <<t, pc>>
None == <<>>
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> 0]>>
Tol == "1/1000000000"
Near3(a, b, tol) == Len(a) = 3 /\ \A k \in 1..3 : RClose(a[k], b[k], tol)
NearAll(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN b : Near3(a[i], b[i], tol)
Ends(e) == {e[1], e[2]}

Topology(tr) ==
    LET M == tr.m
        E == TLCEval(EdgeSet(M))
        ef == TLCEval([e \in E |-> EdgeFaces(M, e)])
        nb == TLCEval([v \in V(M) |-> Neighbours(M, v)])
        vf == TLCEval([v \in V(M) |-> VertexFaces(M, v)])
        border == {e \in E : Cardinality(ef[e]) = 1}
        named == \A i \in DOMAIN tr.edges : Ends(tr.edges[i]) \in E
    IN  C("numbers of vertices and faces", tr.nbv = M.nv /\ tr.nbf = Len(M.faces))
        \o C("number of edges", tr.nbe = Cardinality(E) /\ Len(tr.edges) = Cardinality(E))
        \o C("an edge is listed twice, or missing", {Ends(e) : e \in Range(tr.edges)} = E)
        \o (IF ~named THEN None ELSE
              C("edges of a face", Len(tr.fe) = Len(M.faces) /\ \A k \in F(M) : \A n \in 1..3 : Ends(tr.edges[tr.fe[k][n] + 1]) = SideEdge(M, k, n))
              \o C("faces of an edge", Len(tr.ef) = 3 * Len(M.faces) /\
                     Range(tr.ef) = UNION {{<<i - 1, k - 1, 1>> : k \in ef[Ends(tr.edges[i])]} : i \in DOMAIN tr.edges})
              \o C("vertices of an edge", Range(tr.ev) = UNION {{<<i - 1, v>> : v \in Ends(tr.edges[i])} : i \in DOMAIN tr.edges}))
        \o C("neighbours of a vertex", Range(tr.adj) = UNION {{<<i, j, 1>> : j \in nb[i]} : i \in V(M)})
        \o C("degree in edges", tr.dve = [i \in 1..M.nv |-> Cardinality(nb[i - 1])])
        \o C("degree in faces", tr.dvf = [i \in 1..M.nv |-> Cardinality(vf[i - 1])])
        \o C("laplacian", Range(tr.lap) = {l \in UNION {{<<i, j, IF i = j THEN Cardinality(nb[i]) ELSE -1>> : j \in nb[i] \cup {i}} : i \in V(M)} : l[3] # 0})
        \o C("reported manifold", tr.manifold = Manifold(M))
        \o C("reported closed", tr.closed = Closed(M))
        \o C("boundary edges", Len(tr.border) = Cardinality(border) /\ {Ends(e) : e \in Range(tr.border)} = border)
        \o C("reported boundaries", tr.hasb = (border # {}))

Volume(tr) ==
    LET M == tr.m  closed == Closed(M)  v == Volume6(M, tr.x) IN
    C("a closed mesh looking inside must be refused, others accepted",
      IF closed /\ RSign(v) < 0 THEN tr.made # "ok" ELSE tr.made = "ok")
    \o (IF tr.made # "ok" THEN None ELSE
          IF closed THEN C("volume", tr.status = "ok" /\ RClose(RMul(6, tr.vol), v, Tol))
          ELSE C("the volume of an open mesh must be refused", tr.status # "ok"))

Normals(tr) ==
    IF tr.status # "ok" THEN C("status " \o tr.status, FALSE) ELSE
    LET M == tr.m
        x == TLCEval([v \in DOMAIN tr.x |-> [k \in 1..3 |-> RDir(tr.x[v][k], tr.d[v][k], 1, 1)]])
        fn == FaceNormals(M, x)
        vn == TLCEval([v \in 1..M.nv |-> VertexNormal(M, fn, v - 1)])
        used == 1..M.nv
        slope(n, adj) == RSum(<<RMul(adj[1], RTan(n[1], 1)), RMul(adj[2], RTan(n[2], 1)), RMul(adj[3], RTan(n[3], 1))>>)
        got(b) == RSum([v \in 1..M.nv |-> InnerP(b[v], tr.d[v])])
        us == SetToSeq(used)
    IN  C("face normals", NearAll(tr.fn, fn, Tol))
        \o C("vertex normals", Len(tr.vn) = M.nv /\ \A v \in used : Near3(tr.vn[v], vn[v], Tol))
        \o C("gradient of the face normals", Len(tr.fb) = M.nv /\ RClose(got(tr.fb), RSum([k \in F(M) |-> slope(fn[k], tr.fnb[k])]), "1/10000000"))
        \o C("gradient of the vertex normals", Len(tr.vb) = M.nv /\
               RClose(got(tr.vb), RSum([i \in DOMAIN us |-> slope(vn[us[i]], tr.vnb[us[i]])]), "1/10000000"))
        \o C("gradient kept by the mesh", tr.mb = None \/ RClose(got(tr.mb), RMul(tr.times, RSum([i \in DOMAIN us |-> slope(vn[us[i]], tr.vnb[us[i]])])), "1/10000000"))
        \o C("the positions or an adjoint changed", tr.kept)

Silhouette(tr) ==
    LET M == tr.m  vis == VisibleFaces(M, tr.x)
        on == [k \in F(M) |-> [n \in 1..3 |-> OnSilhouette(M, vis, k, n)]]
    IN  (IF ~Manifold(M) THEN C("the silhouette of a mesh that is no manifold must be refused", tr.status # "ok")
         ELSE C("silhouette edges", tr.status = "ok" /\ tr.flags = on))
        \o C("silhouette edges from the adjacencies", tr.astatus = "ok" /\ tr.aflags = on)

Rigid(tr) ==
    LET M == tr.m
        d == TLCEval([i \in 1..M.nv |-> Sub3(tr.x[i], tr.ref[i])])
    IN  IF ~Connected(M) THEN C("a mesh of several parts must be refused", tr.status # "ok")
        ELSE IF tr.status # "ok" THEN C("status " \o tr.status, FALSE)
        ELSE C("rigid energy", RClose(tr.energy, RigidEnergy(M, tr.w, d), Tol))
             \o C("gradient of the rigid energy", NearAll(tr.grad, RigidGradient(M, tr.w, d), Tol))
             \o C("hessian of the rigid energy", NearAll(tr.hd, RigidGradient(M, tr.w, tr.d), Tol))
             \o C("energy of the reference, moved as a whole", RClose(tr.energy0, "0", Tol) /\ \A i \in DOMAIN tr.grad0 : Near3(tr.grad0[i], <<"0", "0", "0">>, "1/100000000"))
             \o C("the positions changed", tr.kept)

(* The refined mesh keeps the numbers of the vertices of M; each new vertex *)
(* is recognised by the old vertices it shares a face with.                 *)
Rots(f) == {f, <<f[2], f[3], f[1]>>, <<f[3], f[1], f[2]>>}
Subdivide(tr) ==
    IF tr.status # "ok" THEN C("status " \o tr.status, FALSE) ELSE
    LET M == tr.m  N == tr.n
        shape == N.nv = M.nv + Cardinality(EdgeSet(M)) /\ Len(tr.y) = N.nv /\ Len(N.faces) = 4 * Len(M.faces)
                 /\ \A k \in F(N) : Corners(N, k) \subseteq V(N)
        old == V(M)
        name == TLCEval([v \in V(N) |-> IF v \in old THEN {v} ELSE UNION {Corners(N, k) \cap old : k \in VertexFaces(N, v)}])
        got == [k \in F(N) |-> <<name[N.faces[k][1]], name[N.faces[k][2]], name[N.faces[k][3]]>>]
        names == {name[v] : v \in V(N)} = SubVertices(M)
    IN  C("numbers of vertices and faces", shape)
        \o C("orientation flag", N.cw = M.cw)
        \o C("the mesh itself changed", tr.kept)
        \o (IF ~shape THEN None ELSE
              C("one new vertex per edge", names)
              \o (IF ~names THEN None ELSE
                    C("the four faces of a face", {Rots(got[k]) : k \in F(N)} = {Rots(f) : f \in SubFaces(M)})
                    \o C("reported closed", tr.closed = Closed(M) /\ tr.manifold = Manifold(M))
                    \o C("positions", LET p == [v \in V(N) |-> SubPosition(M, tr.x, name[v])] IN \A v \in V(N) : Near3(tr.y[v + 1], p[v], Tol))
                    \o C("colours", IF tr.c = None THEN tr.yc = None
                                    ELSE Len(tr.yc) = N.nv /\ \A v \in V(N) : Near3(tr.yc[v + 1], Mean(name[v], tr.c, Cardinality(name[v])), Tol))))

Judge(tr) == CASE tr.op = "topology" -> IF tr.status # "ok" THEN C("status " \o tr.status, FALSE) ELSE Topology(tr)
               [] tr.op = "volume" -> Volume(tr)
               [] tr.op = "normals" -> Normals(tr)
               [] tr.op = "silhouette" -> Silhouette(tr)
               [] tr.op = "rigid" -> Rigid(tr)
               [] tr.op = "subdivide" -> Subdivide(tr)
               [] OTHER -> C("unknown", FALSE)

Init == t \in 1..Len(Traces) /\ pc = "init"
Next == /\ pc = "init" /\ pc' = "over" /\ t' = t
        /\ LET tr == Traces[t] IN PrintT("VERDICT" \o ToJson([t |-> t, bad |-> Judge(tr), faces |-> Len(tr.m.faces)]))
=============================================================================
