---------------------------- MODULE TraceViewer -----------------------------
(***************************************************************************)
(* Validates recorded sessions of the viewer against Viewer.  A step: the  *)
(* operation op, the displacement d of the mouse, and the next frame: cam, *)
(* its camera, like: the displays its picture is like, among those of a    *)
(* scene and of an OpenGL renderer of their own with this camera, films:   *)
(* [name, frames, closed, good] of each film.  saved: the camera found in  *)
(* the file the key d writes.  Each motion is judged from the recorded     *)
(* camera before it, the point the object turns about being the            *)
(* specification's.                                                        *)
(*                                                                         *)
(* Known defects of the viewer, that are not repaired since it is one of   *)
(* the examples: a, what the viewer as it is has instead of the state s    *)
(* asks for, predicts them.  Where a step is not what it should be, but    *)
(* exactly what a known defect makes of it, it is reported as that finding.*)
(***************************************************************************)
EXTENDS Viewer, Integers, Sequences, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, s, v, frames, bad, a
vars == <<t, i, s, v, frames, bad, a>>
C(clause, b) == IF b THEN <<>> ELSE <<[clause |-> clause, at |-> i]>>
\* b: as it should be; k: the known defect that it is, if any, "" otherwise
CK(clause, b, k) == IF b THEN <<>> ELSE C(IF k = "" THEN clause ELSE "known:" \o k, FALSE)
Tol == "1/100000000"

Like(x, cam) ==
    /\ \A k \in 1..3 : Near(cam.ext[k], x.ext[k], Tol)
    /\ Near(<<cam.int[1][1], cam.int[2][2]>>, x.f, Tol)
    /\ <<cam.int[1][2], cam.int[2][1]>> = <<"0", "0">> /\ cam.int[3] = <<"0", "0", "1">>
    /\ Near(<<cam.int[1][3], cam.int[2][3]>>, <<RDiv(x.W, 2), RDiv(x.H, 2)>>, Tol)
    /\ cam.W = x.W /\ cam.H = x.H
\* number of frames of the k-th film
Rolled(n, f) == IF n.rec THEN [f EXCEPT ![n.films] = @ + 1] ELSE f
Films(n, fs, got) ==
    /\ Len(got) = n.films
    /\ \A k \in 1..n.films : got[k].name = "film" \o ToString(k - 1) \o ".avi" /\ got[k].frames = fs[k] /\ got[k].closed = (k < n.films \/ ~n.rec) /\ got[k].good
\* sl, ol: lights of the scene and of the OpenGL renderer (-1: there is none yet); aa: antialiasing; dead: the mouse moves another camera
AsIs0(o) == [sl |-> 1, ol |-> IF o.gl THEN 1 ELSE -1, aa |-> TRUE, dead |-> FALSE]
AsIs(b, n, o) ==  \* n: the state after o
    IF o.op = "light" THEN [b EXCEPT !.sl = o.k]
    ELSE IF o.op # "key" THEN b
    ELSE CASE o.k = "l" -> IF n.gl THEN [b EXCEPT !.ol = n.lit] ELSE [b EXCEPT !.sl = IF n.light THEN n.lit ELSE 0]
           [] o.k = "r" -> IF n.gl /\ b.ol = -1 THEN [b EXCEPT !.ol = b.sl] ELSE b
           [] o.k = "a" -> IF n.gl THEN b ELSE [b EXCEPT !.aa = ~@]
           [] o.k = "c" -> [b EXCEPT !.dead = TRUE]
           [] OTHER -> b
Fails(n, o) == o.op = "key" /\ o.k = "l" /\ n.gl /\ n.light

Display(n, b, st) ==
    LET light == IF n.gl THEN b.ol ELSE b.sl
        aa == ~n.gl /\ b.aa
        is(x) == \E k \in DOMAIN st.like : st.like[k] = x
        want == Shown(n)
        found(ks) == [k \in 1..Len(ks) |-> [clause |-> "known:" \o ks[k], at |-> i]]
    IN  IF is(want) THEN <<>>
        ELSE IF is([want EXCEPT !.light = light]) THEN found(<<"KF3">>)
        ELSE IF is([want EXCEPT !.aa = aa]) THEN found(<<"KF4">>)
        ELSE IF is([want EXCEPT !.light = light, !.aa = aa]) THEN found(<<"KF3", "KF4">>)
        ELSE C("not displayed with the options of the viewer", FALSE)
Start(tr) ==
    LET st == tr.steps[1] IN
    C("first position of the camera", Like(Home(tr.world, tr.sizes[1][1], tr.sizes[1][2]), st.cam)) \o Display(State0(tr.start), AsIs0(tr.start), st) \o C("films", st.films = <<>>)

\* other: where the camera is instead of want, by the known defect known
Judge(tr, n, b, m, want, other, known, fs, st) ==
    CK("camera after " \o (IF m = "" THEN st.op.op \o " " \o ToString(st.op.k) ELSE m), Like(want, st.cam), IF Like(other, st.cam) THEN known ELSE "")
    \o (IF Purpose(m, v, want, st.d) THEN <<>> ELSE C("specification: purpose of " \o m, FALSE))
    \o Display(n, b, st)
    \o C("films", Films(n, fs, st.films))
    \o (IF st.op.op = "key" /\ st.op.k = "d" THEN C("saved camera", Like(want, st.saved)) ELSE <<>>)

Seen(w, cam) == [w EXCEPT !.ext = cam.ext, !.f = <<cam.int[1][1], cam.int[2][2]>>]
Verdict(b, n) == PrintT("VERDICT" \o ToJson([t |-> t, bad |-> b, steps |-> n]))
Init == t \in 1..Len(Traces) /\ i = 0 /\ bad = <<>> /\ s = <<>> /\ v = <<>> /\ frames = <<>> /\ a = <<>>
Next ==
    LET tr == Traces[t]  Over == 1000  End == Len(tr.steps) IN
    /\ t' = t /\ i < Over
    /\ \/ /\ i = End /\ i' = Over /\ UNCHANGED <<s, v, frames, bad, a>>
          /\ Verdict(bad \o CK("status " \o tr.status, tr.status = "ok" /\ End = tr.len + 1,
                             IF End > 0 /\ End <= tr.len /\ tr.status = "raise:AssertionError" /\ Fails(s, tr.ops[End]) THEN "KF3" ELSE ""), End)
       \/ /\ i = 0 /\ End > 0 /\ i' = 1 /\ bad' = Start(tr) /\ s' = State0(tr.start) /\ a' = AsIs0(tr.start) /\ frames' = <<>>
          /\ v' = Seen(Home(tr.world, tr.sizes[1][1], tr.sizes[1][2]), tr.steps[1].cam)
       \/ /\ i > 0 /\ i < End /\ i' = i + 1
          /\ LET st == tr.steps[i + 1]  n == Apply(s, st.op)  z == tr.sizes[n.size]
                 m == Motion(s, st.op, st.d)
                 want == TLCEval(Moved(v, tr.world, m, st.d, tr.gains, z[1], z[2]))
                 gesture == st.op.op = "move" /\ m # ""
                 other == IF m = "recenter" THEN Home([tr.world EXCEPT !.c = v.c], z[1], z[2]) ELSE IF gesture /\ a.dead THEN v ELSE want
                 known == IF m = "recenter" THEN "KF5" ELSE "KF6"
                 fs == Rolled(n, IF n.films > Len(frames) THEN Append(frames, 0) ELSE frames)
                 b == AsIs(a, n, st.op)
             IN  /\ Assert(Allowed(s, st.op), "an operation that is not allowed")
                 /\ s' = n /\ frames' = fs /\ a' = b
                 /\ bad' = bad \o Judge(tr, n, b, m, want, other, known, fs, st)
                 /\ v' = Seen(IF Like(want, st.cam) THEN want ELSE other, st.cam)
=============================================================================
