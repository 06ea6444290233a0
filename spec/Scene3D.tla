------------------------------ MODULE Scene3D ------------------------------
(***************************************************************************)
(* What rendering a mesh means: the 2.5D scene (see Raster) obtained from  *)
(* a lit mesh seen by a camera.                                            *)
(*                                                                         *)
(* A 3D scene q is a record                                                *)
(*   m, x             mesh and positions (see Mesh)                        *)
(*   cam              camera (see Camera)                                  *)
(*   light            direction of the light times its intensity, or <<>>  *)
(*   ambient          ambient light                                        *)
(*   textured         textured: uv, facesuv, tex, TW, TH; else colors      *)
(*   C                number of colour channels                            *)
(*   bg               per observed pixel, the background                   *)
(*   sigma, culling, persp, intcenter, pix        as in Raster             *)
(*   scale            of depths                                            *)
(***************************************************************************)
EXTENDS Raster, Camera, Mesh

Projected(q) == TLCEval([v \in 1..q.m.nv |-> Project(q.cam, q.x[v])])
Normals(q) ==
    LET fn == FaceNormals(q.m, q.x)
    IN  TLCEval([v \in 1..q.m.nv |-> VertexNormal(q.m, fn, v - 1)])
\* light received at the vertices: surfaces turned away from the light only get the ambient one
Luminosity(q) ==
    IF q.light = <<>> THEN [v \in 1..q.m.nv |-> q.ambient]
    ELSE LET n == Normals(q)
             d(v) == TLCEval(RNeg(InnerP(n[v], q.light)))
         IN  TLCEval([v \in 1..q.m.nv |-> LET a == d(v) IN RAdd(IF RSign(a) > 0 THEN a ELSE "0", q.ambient)])
Silhouettes(q, p) ==
    LET vis == VisibleFaces(q.m, p)
    IN  TLCEval([k \in F(q.m) |-> [n \in 1..3 |-> RLt("0", q.sigma) /\ OnSilhouette(q.m, vis, k, n)]])

Common(q, p) ==
    [H |-> q.cam.Hn, W |-> q.cam.Wn, pix |-> q.pix, faces |-> q.m.faces, clockwise |-> q.m.cw, culling |-> q.culling, strict |-> TRUE,
     persp |-> q.persp, intcenter |-> q.intcenter, sigma |-> q.sigma, errmode |-> FALSE, obs |-> <<>>, eps |-> "1/1000000000",
     exactz |-> FALSE, dev |-> "", ij |-> [v \in DOMAIN p |-> <<p[v][1], p[v][2]>>], depths |-> [v \in DOMAIN p |-> p[v][3]],
     edgeflags |-> Silhouettes(q, [v \in DOMAIN p |-> <<RVal(p[v][1]), RVal(p[v][2])>>])]

\* the colour image
ColorScene(q) ==
    LET p == Projected(q)  l == Luminosity(q)
        flat == [k \in F(q.m) |-> FALSE]
    IN  Common(q, p) @@
        IF q.textured
        THEN [C |-> q.C, bgimage |-> q.bg, textured |-> [k \in F(q.m) |-> TRUE], facesuv |-> q.facesuv, uv |-> q.uv, shade |-> l,
              colors |-> <<>>, tex |-> q.tex, TW |-> q.TW, TH |-> q.TH]
        ELSE [C |-> q.C, bgimage |-> q.bg, textured |-> flat, facesuv |-> q.m.faces, uv |-> <<>>, shade |-> <<>>,
              colors |-> TLCEval([v \in 1..q.m.nv |-> [c \in 1..q.C |-> RMul(q.colors[v][c], l[v])]]), tex |-> <<>>, TW |-> 0, TH |-> 0]

\* the depth image: one channel, the scaled depth
DepthScene(q) ==
    LET p == Projected(q)
    IN  Common(q, p) @@
        [C |-> 1, bgimage |-> q.bg, textured |-> [k \in F(q.m) |-> FALSE], facesuv |-> q.m.faces, uv |-> <<>>, shade |-> <<>>,
         colors |-> [v \in 1..q.m.nv |-> <<RMul(p[v][3], q.scale)>>], tex |-> <<>>, TW |-> 0, TH |-> 0]

(* Deferred rendering: the attributes q.channels (in this order) of every   *)
(* corner of every face, as so many channels; no antialiasing, a background *)
(* at the largest depth.                                                    *)
Available(q) == {"depth", "face_id", "barycentric", "normal", "luminosity", "xyz", IF q.textured THEN "uv" ELSE "color"}
DeferredScene(q) ==
    LET p == Projected(q)  M == q.m
        n == IF {"normal", "luminosity"} \cap Range(q.channels) # {} THEN Normals(q) ELSE <<>>
        l == IF "luminosity" \in Range(q.channels) THEN Luminosity(q) ELSE <<>>
        corner(i) == <<((i - 1) \div 3) + 1, ((i - 1) % 3) + 1>>
        vertex(i) == M.faces[corner(i)[1]][corner(i)[2]] + 1
        value(ch, i) ==
            CASE ch = "depth" -> <<RMul(p[vertex(i)][3], q.scale)>>
              [] ch = "face_id" -> <<R(corner(i)[1] - 1)>>
              [] ch = "barycentric" -> [c \in 1..3 |-> IF c = corner(i)[2] THEN "1" ELSE "0"]
              [] ch = "normal" -> n[vertex(i)]
              [] ch = "luminosity" -> <<l[vertex(i)]>>
              [] ch = "xyz" -> q.x[vertex(i)]
              [] ch = "uv" -> q.uv[q.facesuv[corner(i)[1]][corner(i)[2]] + 1]
              [] ch = "color" -> q.colors[vertex(i)]
        soup == 3 * Len(M.faces)
        all(i) == FoldLeft(LAMBDA acc, ch : acc \o value(ch, i), <<>>, q.channels)
        far == CHOOSE d \in {p[v][3] : v \in 1..M.nv} : \A v \in 1..M.nv : RLe(p[v][3], d)
        back == FoldLeft(LAMBDA acc, ch : acc \o [c \in DOMAIN value(ch, 1) |-> IF ch = "depth" THEN RMul(far, q.scale) ELSE "0"], <<>>, q.channels)
        ps == [i \in 1..soup |-> p[vertex(i)]]
        S == Common([q EXCEPT !.sigma = "0"], p)
    IN  [S EXCEPT !.faces = [k \in F(M) |-> <<3 * k - 3, 3 * k - 2, 3 * k - 1>>],
                  !.ij = [i \in 1..soup |-> <<ps[i][1], ps[i][2]>>], !.depths = [i \in 1..soup |-> ps[i][3]]]
        @@ [C |-> Len(back), bgimage |-> [i \in DOMAIN q.pix |-> back], textured |-> [k \in F(M) |-> FALSE],
            facesuv |-> [k \in F(M) |-> <<3 * k - 3, 3 * k - 2, 3 * k - 1>>], uv |-> <<>>, shade |-> <<>>,
            colors |-> TLCEval([i \in 1..soup |-> all(i)]), tex |-> <<>>, TW |-> 0, TH |-> 0]
=============================================================================
