------------------------------ MODULE TraceGL ------------------------------
(***************************************************************************)
(* Validates what the OpenGL back ends really did against GL.              *)
(*   kind "matrix"    a projection matrix and points                       *)
(*   kind "pyrender"  the scene handed over to pyrender                    *)
(***************************************************************************)
EXTENDS GL, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, pc
vars == <<t, pc>>
None == <<>>
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> 0]>>
Tol == "1/1000000000"
Single == "1/500000"   \* what is stored in single precision
Close(a, b, tol) == RFirstFar(a, b, tol) = 0
\* (rotations are recorded, and inverted as, rotations up to 1e-7)
Size(a) == RSum(<<"1", RAbs(a[1]), RAbs(a[2]), RAbs(a[3])>>)
Within(a, b, s) == \A k \in 1..3 : RLe(RAbs(RSub(a[k], b[k])), RMul("1/1000000", s))
Cut(s, n) == SubSeq(s, 1, n)

\* tr.cam, tr.zn, tr.zf, tr.icp; tr.m the matrix; tr.x points in front of the camera, in its coordinates
Matrix(tr) ==
    LET skewed == RSign(tr.cam.int[1][2]) # 0
        clip == TLCEval([i \in DOMAIN tr.x |-> RowTimes(Flipped(tr.x[i]), tr.m)])
        dev == TLCEval([i \in DOMAIN tr.x |-> Divided(clip[i])])
        on(z) == Divided(RowTimes(<<"0", "0", RNeg(z)>>, tr.m))[3]
    IN  IF skewed THEN C("a skewed camera was accepted", tr.status # "ok")
        ELSE IF tr.status # "ok" THEN C("status " \o tr.status, FALSE)
        ELSE C("place on the device", \A i \in DOMAIN tr.x : Close(Cut(dev[i], 2), DeviceAt(tr.cam, tr.icp, Pixel(tr.cam, Plane(tr.x[i]))), Tol))
             \o C("points in front of the camera", \A i \in DOMAIN clip : RSign(clip[i][4]) > 0)
             \o C("depth of the near plane", RClose(on(tr.zn), "-1", Tol))
             \o C("depth of the far plane", RClose(on(tr.zf), "1", Tol))
             \o C("depths increase", \A i, j \in DOMAIN tr.x : RLt(tr.x[i][3], tr.x[j][3]) => RLt(dev[i][3], dev[j][3]))
             \o C("an argument changed", tr.kept)

\* tr.q as in Scene3D, tr.icp, tr.distorted, tr.uniform; tr.rec: what was handed over
Affine(m, v) == TLCEval([r \in 1..3 |-> RSum(<<RMul(m[r][1], v[1]), RMul(m[r][2], v[2]), RMul(m[r][3], v[3]), m[r][4]>>)])
Column4(m, v) == TLCEval([r \in 1..4 |-> RSum(<<RMul(m[r][1], v[1]), RMul(m[r][2], v[2]), RMul(m[r][3], v[3]), m[r][4]>>)])
Seen(q) == {v \in 1..q.m.nv : RLt("0", CamPoint(q.cam, q.x[v])[3])}
RowsDown(d) == <<d[1], RNeg(d[2])>>
Handed(tr) ==
    LET q == tr.q  rec == tr.rec  n == Normals(q)
        at(v) == Flipped(CamPoint(q.cam, q.x[v]))
        clip == TLCEval([v \in Seen(q) |-> Column4(rec.proj, at(v))])
        len == RSqrt(InnerP(q.light, q.light))
        corner(k, c) == rec.corners[k][c]   \* [x, n, uv] of the corner
        uv(k, c) == LET u == P(q.uv, q.facesuv[k][c]) IN
                    <<RDiv(RAdd(u[1], "1/2"), q.TW), RSub(1, RDiv(RAdd(u[2], "1/2"), q.TH))>>
        \* the faces that are seen are those whose corners turn anticlockwise
        turned(c, r) == IF q.m.cw THEN ((3 - c + r) % 3) + 1 ELSE ((c - 1 + r) % 3) + 1
        corners(k, r) == \A c \in 1..3 : LET d == turned(c, r)  v == q.m.faces[k][d] + 1 IN
                            Close(corner(k, c).x, q.x[v], Single) /\ Close(corner(k, c).n, n[v], Single) /\ Close(corner(k, c).uv, uv(k, d), Single)
        texel(i) == \A c \in 1..3 : RClose(RDiv(rec.tex[i][c], 255), q.tex[i][c], "1/100")
    IN  C("place of the camera", \A v \in DOMAIN clip : Within(Affine(rec.pose, at(v)), q.x[v], Size(at(v))))
        \o C("place on the device", \A v \in DOMAIN clip : Close(RowsDown(Divided(clip[v])), DeviceAt(q.cam, tr.icp, Project(q.cam, q.x[v])), "1/10000000"))
        \o C("the near or far plane hides the mesh", \A v \in DOMAIN clip : RLt(RAbs(clip[v][3]), clip[v][4]) \/ ~tr.infront)
        \o C("number of faces", Len(rec.corners) = Len(q.m.faces))
        \o (IF Len(rec.corners) = Len(q.m.faces)
            THEN C("corners of the faces", \A k \in F(q.m) : \E r \in 0..2 : corners(k, r)) ELSE None)
        \o C("texture", Len(rec.tex) = Len(q.tex) /\ \A i \in DOMAIN rec.tex : texel(i))
        \o C("ambient light", rec.ambient = <<>> \/ Close(rec.ambient, <<q.ambient, q.ambient, q.ambient>>, Tol))
        \o C("background", Close(Cut(rec.bg, 3), q.bgcolor, Single))
        \o C("number of lights", Len(rec.lights) = IF RSign(len) = 0 THEN 0 ELSE 1)
        \o (IF Len(rec.lights) = 1 /\ RSign(len) > 0
            THEN C("light", RClose(rec.lights[1].intensity, len, Tol)
                            /\ Close([r \in 1..3 |-> RNeg(rec.lights[1].pose[r][3])], Unit(q.light), "1/10000000")) ELSE None)
        \o C("size of the image", rec.size = <<q.cam.Wn, q.cam.Hn>>)
        \o C("what pyrender returned", rec.returned)
        \o C("the scene changed", tr.kept)
Pyrender(tr) ==
    IF tr.distorted THEN C("a camera with distortion was accepted", tr.status # "ok")
    ELSE IF RSign(tr.q.cam.int[1][2]) # 0 THEN C("a skewed camera was accepted", tr.status # "ok")
    ELSE IF ~tr.uniform THEN C("an image as background was accepted", tr.status # "ok")
    ELSE IF tr.status # "ok" THEN C("status " \o tr.status, FALSE)
    ELSE Handed(tr)

Judge(tr) == CASE tr.kind = "matrix" -> Matrix(tr) [] tr.kind = "pyrender" -> Pyrender(tr)

Init == t \in 1..Len(Traces) /\ pc = "judge"
Next == /\ pc = "judge" /\ pc' = "over" /\ t' = t
        /\ LET tr == Traces[t] IN PrintT("VERDICT" \o ToJson([t |-> t, bad |-> Judge(tr), judged |-> IF tr.status = "ok" THEN 1 ELSE 0]))
=============================================================================
