------------------------------- MODULE Viewer -------------------------------
(***************************************************************************)
(* The interactive viewer.  What mouse and keys do, first as commands on   *)
(* the options of the viewer, then as motions of its camera.               *)
(*                                                                         *)
(* s   mode   "trackball" or "camera", what the mouse moves                *)
(*     btn    the button that is down, "" if none                          *)
(*     gl, persp, light, aa, rec    options of the display                 *)
(*     lit, size   the light that was set, the size of the window          *)
(*     films  number of films that were started                            *)
(* o   [op, k, m]: down (k: button) / move (k: displacement) with modifier *)
(*     m; up; hover (no button); key k; resize k; light k                  *)
(***************************************************************************)
EXTENDS Camera, TLC

State0(o) == [mode |-> "trackball", btn |-> "", gl |-> o.gl, persp |-> FALSE, light |-> o.light, aa |-> o.aa, rec |-> FALSE, lit |-> 1, size |-> 1, films |-> 0]
Keys == {"h", "r", "p", "l", "a", "d", "s", "t", "c", "x"}  \* (c: registered by the user of the viewer, to put the camera back; x: no meaning)

Allowed(s, o) ==
    CASE o.op = "down" -> s.btn = "" /\ (o.k = "left" => o.m # "shift") /\ (o.k = "right" => o.m # "ctrl") /\ (o.k = "middle" => o.m = "")
      [] o.op = "move" -> s.btn # "" /\ (s.btn = "left" => o.m # "shift") /\ (s.btn = "right" => o.m # "ctrl") /\ (s.btn = "middle" => o.m = "")
      [] o.op = "up" -> s.btn # ""
      [] o.op = "hover" -> s.btn = ""
      [] o.op = "key" -> o.k = "c" => s.btn = ""
      [] o.op = "resize" -> ~s.rec /\ o.k # s.size
      [] o.op = "light" -> s.light /\ o.k # s.lit

Other(m) == IF m = "trackball" THEN "camera" ELSE "trackball"
Key(s, k) ==
    CASE k = "r" -> [s EXCEPT !.gl = ~@]
      [] k = "p" -> IF s.gl THEN s ELSE [s EXCEPT !.persp = ~@]   \* (OpenGL is always perspective correct, and not antialiased)
      [] k = "a" -> IF s.gl THEN s ELSE [s EXCEPT !.aa = ~@]
      [] k = "l" -> [s EXCEPT !.light = ~@]
      [] k = "s" -> [s EXCEPT !.rec = ~@, !.films = IF s.rec THEN @ ELSE @ + 1]
      [] k = "t" -> [s EXCEPT !.mode = Other(@)]
      [] k = "c" -> [s EXCEPT !.mode = "trackball"]
      [] OTHER -> s
Apply(s, o) ==
    CASE o.op = "down" -> [s EXCEPT !.btn = o.k]
      [] o.op = "up" -> [s EXCEPT !.btn = ""]
      [] o.op = "key" -> Key(s, o.k)
      [] o.op = "resize" -> [s EXCEPT !.size = o.k]
      [] o.op = "light" -> [s EXCEPT !.lit = o.k]
      [] OTHER -> s

\* the motion of the camera an operation stands for; d: displacement of the mouse
Motion(s, o, d) ==
    CASE o.op = "move" /\ (s.btn = "middle" \/ (s.btn = "left" /\ o.m = "ctrl")) -> "pan"
      [] o.op = "move" /\ s.btn = "left" /\ o.m = "" -> IF s.mode = "trackball" THEN "orbit" ELSE "look"
      [] o.op = "move" /\ s.btn = "right" /\ o.m = "shift" -> "zoom"
      [] o.op = "move" /\ s.btn = "right" /\ o.m = "" ->
            IF ~RLt(RAbs(d[2]), RAbs(d[1])) THEN "dolly" ELSE IF s.mode = "trackball" THEN "roll" ELSE "bank"
      [] o.op = "resize" -> "resize"
      [] o.op = "key" /\ o.k = "c" -> "recenter"
      [] OTHER -> ""

\* what is displayed
Shown(s) == [gl |-> s.gl, light |-> IF s.light THEN s.lit ELSE 0, persp |-> ~s.gl /\ s.persp, aa |-> ~s.gl /\ s.aa]

(* ------------------------------- geometry ------------------------------- *)
(* v: [ext, f (two focal lengths), c (the point the object turns about), W, *)
(* H].  g: the gains of the viewer, per pixel of mouse motion.             *)
RECURSIVE Series(_, _, _, _)  \* sum over k >= n of the terms, each the one before times x / ((2k+a)(2k+a+1))
Series(x, term, k, a) == IF k > 16 THEN term ELSE RAdd(term, Series(x, RDiv(RMul(term, x), RMul(2 * k + a, 2 * k + a + 1)), k + 1, a))
Cosine(x) == Series(RNeg(RSq(x)), "1", 0, 1)
Sine(x) == RMul(x, Series(RNeg(RSq(x)), "1", 1, 0))
RECURSIVE Powers(_, _, _)
Powers(x, term, k) == IF k > 30 THEN term ELSE RAdd(term, Powers(x, RDiv(RMul(term, x), k), k + 1))
Exponential(x) == TLCEval(Powers(x, "1", 1))
Pi == "3141592653589793238462643383279502884197/1000000000000000000000000000000000000000"

\* the matrix of the rotation by the vector w (Rodrigues)
Rotation(w) ==
    LET s == TLCEval(RDot(w, w))
        sinc == TLCEval(Series(RNeg(s), "1", 1, 0))            \* sin(r) / r
        versc == TLCEval(Series(RNeg(s), "1/2", 1, 1))         \* (1 - cos(r)) / r^2
        e(i, j) == IF i = j THEN RSub("1", RMul(versc, RSub(s, RSq(w[i]))))
                   ELSE LET k == 6 - i - j IN RAdd(RMul(versc, RMul(w[i], w[j])), RMul(sinc, IF j = (i % 3) + 1 THEN RNeg(w[k]) ELSE w[k]))
    IN  TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> e(i, j)])])

Trans(v) == <<v.ext[1][4], v.ext[2][4], v.ext[3][4]>>
Posed(r, x) == TLCEval([i \in 1..3 |-> <<r[i][1], r[i][2], r[i][3], x[i]>>])
Turned(m, v) == LET cols == [j \in 1..3 |-> MatVec(m, Col(v.ext, j))] IN TLCEval([i \in 1..3 |-> <<cols[1][i], cols[2][i], cols[3][i]>>])
\* turned by w about the point c / about the camera
AboutPoint(v, w) == LET r == Turned(Rotation(w), v) IN [v EXCEPT !.ext = Posed(r, [i \in 1..3 |-> RSub(CamPoint(v, v.c)[i], Dot3(r[i], v.c))])]
AboutCamera(v, w) == LET m == Rotation(w) IN [v EXCEPT !.ext = Posed(Turned(m, v), MatVec(m, Trans(v)))]
Shifted(v, x) == [v EXCEPT !.ext = Posed(Rot(v.ext), [i \in 1..3 |-> RAdd(v.ext[i][4], x[i])])]

\* in front of the object, far enough to see it all, w: [c, radius, fov]
Home(w, W, H) ==
    LET half == RDiv(RMul(w.fov, Pi), 360)
        f == TLCEval(RDiv(RMul(RDiv(W, 2), Cosine(half)), Sine(half)))
        eye == <<w.c[1], w.c[2], RAdd(w.c[3], RMul(3, w.radius))>>
    IN  [ext |-> <<<<"1", "0", "0", RNeg(eye[1])>>, <<"0", "-1", "0", eye[2]>>, <<"0", "0", "-1", eye[3]>>>>, f |-> <<f, f>>, c |-> w.c, W |-> W, H |-> H]

Moved(v, w, motion, d, g, W, H) ==
    CASE motion = "orbit" -> AboutPoint(v, <<RMul(g.orbit, d[2]), RNeg(RMul(g.orbit, d[1])), "0">>)
      [] motion = "roll" -> AboutPoint(v, <<"0", "0", RMul(g.roll, d[1])>>)
      [] motion = "look" -> AboutCamera(v, <<RNeg(RMul(g.look, d[2])), RMul(g.look, d[1]), "0">>)
      [] motion = "bank" -> AboutCamera(v, <<"0", "0", RMul(g.roll, d[1])>>)
      [] motion = "dolly" -> Shifted(v, <<"0", "0", RNeg(RMul(g.dolly, d[2]))>>)
      [] motion = "pan" -> LET k == RMul(g.pan, CamPoint(v, v.c)[3])  x == RMul(k, d[1])  y == RMul(k, d[2]) IN
                           [Shifted(v, <<x, y, "0">>) EXCEPT !.c = [i \in 1..3 |-> RSub(@[i], RAdd(RMul(v.ext[1][i], x), RMul(v.ext[2][i], y)))]]
      [] motion = "zoom" -> LET k == Exponential(RNeg(RMul(g.zoom, d[2]))) IN [v EXCEPT !.f = <<RMul(k, v.f[1]), RMul(k, v.f[2])>>]
      [] motion = "resize" -> LET k == RDiv(W, v.W) IN [v EXCEPT !.f = <<RMul(k, v.f[1]), RMul(k, v.f[2])>>, !.W = W, !.H = H]
      [] motion = "recenter" -> Home(w, W, H)
      [] OTHER -> v

(* What the motions are for, whatever their gains.                         *)
Same3(a, b) == Near(a, b, "1/1000000000")
Eye(v) == LET x == Trans(v) IN [j \in 1..3 |-> RNeg(Dot3(<<v.ext[1][j], v.ext[2][j], v.ext[3][j]>>, x))]
Orthonormal(v) == \A i, j \in 1..3 : RClose(Dot3(Rot(v.ext)[i], Rot(v.ext)[j]), IF i = j THEN "1" ELSE "0", "1/1000000")
SameDirection(v, n) == \A i \in 1..3 : Same3(Rot(n.ext)[i], Rot(v.ext)[i])
SameLens(v, n) == Near(n.f, v.f, "1/1000000000")
Ahead(v) == RLt("0", CamPoint(v, v.c)[3])
Purpose(motion, v, n, d) ==
    CASE motion \in {"orbit", "roll"} -> Same3(CamPoint(n, n.c), CamPoint(v, v.c)) /\ n.c = v.c /\ SameLens(v, n) /\ Orthonormal(n)
      [] motion \in {"look", "bank"} -> Same3(Eye(n), Eye(v)) /\ SameLens(v, n) /\ Orthonormal(n)
      [] motion = "dolly" -> SameDirection(v, n) /\ SameLens(v, n) /\ RSign(RSub(v.ext[3][4], n.ext[3][4])) = RSign(d[2]) /\ n.ext[1] = v.ext[1] /\ n.ext[2] = v.ext[2]
      [] motion = "pan" -> SameDirection(v, n) /\ SameLens(v, n) /\ Same3(CamPoint(n, n.c), CamPoint(v, v.c)) /\ n.ext[3] = v.ext[3]
                           /\ (Ahead(v) => \A k \in 1..2 : RSign(RSub(n.ext[k][4], v.ext[k][4])) = RSign(d[k]))
      [] motion = "zoom" -> n.ext = v.ext /\ \A k \in 1..2 : RSign(RSub(v.f[k], n.f[k])) = RSign(d[2])
      [] motion = "resize" -> n.ext = v.ext /\ RClose(RDiv(n.f[1], n.W), RDiv(v.f[1], v.W), "1/1000000000")  \* the horizontal field of view stays
      [] motion = "" -> n = v
      [] OTHER -> TRUE
=============================================================================
