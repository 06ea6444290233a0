---------------------------- MODULE TraceMeshLab ----------------------------
(***************************************************************************)
(* Validates MeshLab projects written by the code against MeshLab.         *)
(*   tr.cams   the cameras given                  tr.images  their images  *)
(*   tr.x, tr.faces, tr.cw the mesh given: are its faces clockwise?        *)
(*   tr.shots  what the project describes: [shot, label, file, image]      *)
(*             (image: the values found in the file it names)              *)
(*   tr.mesh   [matrix, x, faces] of the mesh file that the project names  *)
(***************************************************************************)
EXTENDS MeshLab, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, pc
None == <<>>
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> 0]>>
Size(a) == RSum(<<"1", RAbs(a[1]), RAbs(a[2]), RAbs(a[3])>>)
Within(a, b, s) == \A k \in DOMAIN b : RLe(RAbs(RSub(a[k], b[k])), RMul("1/1000000", s))
Straight(cam) == [cam EXCEPT !.dist = <<>>]
\* files have no third dimension for gray levels
Stored(s) == IF Len(s) = 3 /\ s[3] = 1 THEN <<s[1], s[2]>> ELSE s
Identity == <<"1", "0", "0", "0", "0", "1", "0", "0", "0", "0", "1", "0", "0", "0", "0", "1">>

\* rotations are known up to 1e-7: points are compared in camera space, pixels for points well in front of the camera
Shot(cam, image, r, x) ==
    LET far(p) == RLt(RMul("1/10", Size(p)), p[3]) IN
    C("size of the viewport", r.shot.view = <<image.w, image.h>>)
    \o C("place and orientation of the camera",
         \A v \in DOMAIN x : LET a == ShotStep(r.shot, ShotStep(r.shot, ShotStart(x[v]))).p  p == CamPoint(cam, x[v]) IN
             Within(a, <<p[1], RNeg(p[2]), RNeg(p[3])>>, Size(p)))
    \o C("where points are seen",
         \A v \in DOMAIN x : far(CamPoint(cam, x[v])) =>
             LET s == ShotProject(r.shot, x[v])  u == Project(Straight(cam), x[v]) IN
             s.pc = "pixel" /\ \A k \in 1..2 : RLe(RAbs(RSub(s.p[k], u[k])), RMul("1/10000", RAdd("1", RAdd(RAbs(u[k]), cam.int[k][k])))))
    \o C("rotation in the last row or column", r.rest)
    \o C("image of the camera", r.image.shape = Stored(image.shape) /\ \A i \in DOMAIN image.data :
                IF image.bytes THEN REq(r.image.data[i], image.data[i]) ELSE RLe(RAbs(RSub(RDiv(r.image.data[i], 255), image.data[i])), "1/200"))
\* MeshLab sees faces counter-clockwise
Outward(f, cw) == LET a == f[1]  b == IF cw THEN f[3] ELSE f[2]  c == IF cw THEN f[2] ELSE f[3] IN {<<a, b, c>>, <<b, c, a>>, <<c, a, b>>}
Judge(tr) ==
    IF tr.status # "ok" THEN C("status " \o tr.status, FALSE)
    ELSE IF Len(tr.shots) # Len(tr.cams) THEN C("number of cameras", FALSE)
    ELSE C("files of the images", \A i, j \in DOMAIN tr.shots : i # j => tr.shots[i].file # tr.shots[j].file)
         \o C("labels", \A i, j \in DOMAIN tr.shots : i # j => tr.shots[i].label # tr.shots[j].label)
         \o (LET RECURSIVE all(_)
                 all(i) == IF i > Len(tr.cams) THEN None ELSE Shot(tr.cams[i], tr.images[i], tr.shots[i], tr.points) \o all(i + 1)
             IN  all(1))
         \o C("placed mesh", \A k \in 1..16 : REq(tr.mesh.matrix[k], Identity[k]))
         \o C("mesh file", Len(tr.mesh.faces) = Len(tr.faces) /\ (\A k \in DOMAIN tr.faces : tr.mesh.faces[k] \in Outward(tr.faces[k], tr.cw)) /\ Len(tr.mesh.x) = Len(tr.x) /\ \A v \in DOMAIN tr.x : Within(tr.mesh.x[v], tr.x[v], "1"))
         \o C("an argument changed", tr.kept)

Init == t \in 1..Len(Traces) /\ pc = "judge"
Next == /\ pc = "judge" /\ pc' = "over" /\ t' = t
        /\ LET tr == Traces[t] IN PrintT("VERDICT" \o ToJson([t |-> t, bad |-> Judge(tr), cameras |-> Len(tr.cams)]))
=============================================================================
