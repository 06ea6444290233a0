---------------------------- MODULE TraceCamera -----------------------------
(***************************************************************************)
(* Validates what real cameras computed.  Traces, by tr.op:                *)
(*  "project"   points tr.x projected together (tr.img, tr.depth), alone   *)
(*              (tr.one, tr.onedepth), without depths (tr.nodepth), and    *)
(*              world_to_camera (tr.cam3); tr.kept: inputs unchanged       *)
(*  "gradient"  adjoints tr.imgb, tr.depthb (<<>> for none), result tr.xb  *)
(*  "geometry"  centre, camera_to_world matrix, tangents of half the       *)
(*              fields of view                                             *)
(*  "perspective" / "default"   what the constructors built                *)
(***************************************************************************)
EXTENDS Camera, Json, IOUtils, FiniteSets

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, st
vars == <<t, st>>
None == <<>>
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> 0]>>
Rows(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Len(a[i]) = Len(b[i]) /\ Near(a[i], b[i], tol)
Tol == "1/1000000000"

Basis(x) == [i \in 1..Len(x) |-> [k \in 1..3 |-> RDir(x[i][k], 1, k, 3)]]

Compare(tr, s) ==
    IF tr.status # "ok" THEN C("status " \o tr.status, FALSE)
    ELSE CASE tr.op = "project" ->
            C("projected points", Rows(tr.img, s.p, Tol))
            \o C("depths", Len(tr.depth) = Len(s.depth) /\ Near(tr.depth, s.depth, Tol))
            \o C("a point projected alone", Rows(tr.one, s.p, Tol) /\ Near(tr.onedepth, s.depth, Tol))
            \o C("projection without depths", Rows(tr.nodepth, s.p, Tol))
            \o C("camera coordinates", Rows(tr.cam3, [i \in 1..Len(tr.x) |-> CamPoint(tr.cam, tr.x[i])], Tol))
            \o C("the points or the camera changed", tr.kept)
      [] tr.op = "gradient" ->
            C("gradient of the projection",
              Len(tr.xb) = Len(tr.x) /\ \A i \in 1..Len(tr.x) : Len(tr.xb[i]) = 3 /\ \A k \in 1..3 :
                 RClose(tr.xb[i][k],
                        RSum(<<RMul(tr.imgb[i][1], RTan(s.p[i][1], k)), RMul(tr.imgb[i][2], RTan(s.p[i][2], k)),
                               IF tr.depthb = None THEN "0" ELSE RMul(tr.depthb[i], RTan(s.depth[i], k))>>), "1/100000000"))
            \o C("an adjoint changed", tr.kept)
      [] OTHER -> None

Zero3(v, tol) == \A k \in 1..3 : RClose(v[k], "0", tol)
M4(m, p) == MatVec(m, <<p[1], p[2], p[3], "1">>)

Geometry(tr) ==
    C("status", tr.status = "ok") \o
    (IF tr.status # "ok" THEN None ELSE
       LET cam == tr.cam IN
       C("the centre is not mapped to the origin", Zero3(CamPoint(cam, tr.center), "1/100000000"))
       \o C("camera to world", Rows(tr.c2w, [r \in 1..4 |-> IF r = 4 THEN <<"0", "0", "0", "1">> ELSE
                 <<cam.ext[1][r], cam.ext[2][r], cam.ext[3][r], tr.center[r]>>], Tol)
              /\ \A i \in 1..Len(tr.x) : LET m == M4(tr.c2w, CamPoint(cam, tr.x[i])) IN
                    RClose(m[4], "1", Tol) /\ \A k \in 1..3 : RClose(m[k], tr.x[i][k], "1/100000000"))
       \o C("horizontal field of view", RClose(RMul(RMul(2, tr.tanx), cam.int[1][1]), cam.W, Tol))
       \o C("vertical field of view", RClose(RMul(RMul(2, tr.tany), cam.int[2][2]), cam.H, Tol)))

\* tr.req: the requested width, height, tangent of half the field of view, centre, rotation, distortion
IntrinsicsOf(req, cam) ==
    LET f == RDiv(req.W, RMul(2, req.tanx)) IN
    C("size of the image", cam.W = req.W /\ cam.H = req.H)
    \o C("intrinsics", Rows(cam.int, <<<<f, "0", RDiv(req.W, 2)>>, <<"0", f, RDiv(req.H, 2)>>, <<"0", "0", "1">>>>, Tol))
    \o C("rotation", Rows(Rot(cam.ext), req.rot, Tol))
    \o C("distortion", Len(cam.dist) = Len(req.dist) /\ Near(cam.dist, req.dist, Tol))
Perspective(tr) ==
    C("status", tr.status = "ok") \o
    (IF tr.status # "ok" THEN None ELSE IntrinsicsOf(tr.req, tr.cam)
       \o C("centre", Zero3(CamPoint(tr.cam, tr.req.center), "1/100000000")))

\* the default camera: on the axis of the bounding box (in camera axes), as near as its front side allows
Extreme(vs, k, max) == LET S == {vs[i][k] : i \in 1..Len(vs)}
                       IN  CHOOSE a \in S : \A b \in S : IF max THEN RLe(b, a) ELSE RLe(a, b)
Default(tr) ==
    C("status", tr.status = "ok") \o
    (IF tr.status # "ok" THEN None ELSE
     LET cam == tr.cam  req == tr.req
         vs == [i \in 1..Len(tr.x) |-> MatVec(req.rot, tr.x[i])]
         lo == [k \in 1..3 |-> Extreme(vs, k, FALSE)]  hi == [k \in 1..3 |-> Extreme(vs, k, TRUE)]
         size == [k \in 1..3 |-> RSub(hi[k], lo[k])]
         half(k, aspect) == RDiv(RMul(aspect, size[k]), RMul(2, req.tanx))
         near == RMax(half(1, "1"), half(2, RDiv(req.W, req.H)))      \* distance to the front side of the box
         ctr == [k \in 1..3 |-> IF k < 3 THEN RDiv(RAdd(lo[k], hi[k]), 2) ELSE RSub(lo[3], near)]
         pr == [i \in 1..Len(tr.x) |-> Project(cam, tr.x[i])]
         slack == RMul("1/10000000", RAdd(req.W, req.H))
     IN  IntrinsicsOf(req, cam)
         \o C("a vertex is not in front of the camera", \A i \in 1..Len(pr) : RLt("0", pr[i][3]))
         \o C("a vertex is outside of the image", req.dist # None \/ \A i \in 1..Len(pr) :
                RLe(RNeg(slack), pr[i][1]) /\ RLe(pr[i][1], RAdd(req.W, slack)) /\
                RLe(RNeg(slack), pr[i][2]) /\ RLe(pr[i][2], RAdd(req.H, slack)))
         \o C("position of the camera", LET o == MatVec(Transp(req.rot), ctr) IN \A k \in 1..3 :
                RClose(CamPoint(cam, o)[k], "0", "1/10000000")))

Init == t \in 1..Len(Traces) /\ st = [pc |-> "init"]
Verdict(bad) == PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad, points |-> Len(Traces[t].x)])) /\ st' = [pc |-> "over"]
Next ==
    LET tr == Traces[t] IN
    /\ t' = t
    /\ \/ st.pc = "init" /\ tr.op \in {"project", "gradient"} /\ tr.status = "ok"
          /\ st' = CInit(IF tr.op = "gradient" THEN Basis(tr.x) ELSE tr.x)
       \/ st.pc = "init" /\ tr.op \in {"project", "gradient"} /\ tr.status # "ok" /\ Verdict(C("status " \o tr.status, FALSE))
       \/ st.pc \in {"world", "camera", "plane", "distorted"} /\ st' = CStep(tr.cam, st)
       \/ st.pc = "image" /\ Verdict(Compare(tr, st))
       \/ st.pc = "init" /\ tr.op = "geometry" /\ Verdict(Geometry(tr))
       \/ st.pc = "init" /\ tr.op = "perspective" /\ Verdict(Perspective(tr))
       \/ st.pc = "init" /\ tr.op = "default" /\ Verdict(Default(tr))

\* properties of the design, in every state
DesignInv == st.pc = "image" /\ Traces[t].op = "project" => PipelineIsProject(Traces[t].cam, Traces[t].x, st)
DesignStep == [][st.pc \in {"camera", "plane", "distorted"} => "depth" \notin DOMAIN st' \/ st'.depth = st.depth]_vars
=============================================================================
