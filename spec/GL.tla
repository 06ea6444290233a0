--------------------------------- MODULE GL ---------------------------------
(***************************************************************************)
(* Drawing with OpenGL what the camera sees.                               *)
(*                                                                         *)
(* The vertex stages are actions on the state [pc, p]:                     *)
(*   Flip      (camera coordinates -> OpenGL ones: y up, looking at -z)    *)
(*   Clip      (row vector times the 4 x 4 projection matrix)              *)
(*   Divide    (-> normalised device coordinates)                          *)
(*   Window    (-> window coordinates, the viewport being W x H)           *)
(* and a fragment is drawn with the colour of the nearest face: texture    *)
(* times the light received in the direction of the interpolated normal.   *)
(* Images are stored in the order of the window's rows, so that rows, like *)
(* the camera's, grow with the second device coordinate.                   *)
(***************************************************************************)
EXTENDS Scene3D

\* pixel centres are at the half integers of the window
Half(icp) == IF icp THEN "1/2" ELSE "0"

Flipped(p) == <<p[1], RNeg(p[2]), RNeg(p[3])>>
RowTimes(p, m) == TLCEval([c \in 1..4 |-> RSum(<<RMul(p[1], m[1][c]), RMul(p[2], m[2][c]), RMul(p[3], m[3][c]), m[4][c]>>)])
Divided(c) == TLCEval(<<RDiv(c[1], c[4]), RDiv(c[2], c[4]), RDiv(c[3], c[4])>>)
Windowed(cam, d) == <<RMul(RDiv(RAdd(d[1], 1), 2), cam.W), RMul(RDiv(RAdd(d[2], 1), 2), cam.H), RDiv(RAdd(d[3], 1), 2)>>
Kept(c) == RSign(c[4]) > 0 /\ \A k \in 1..3 : RLe(RAbs(c[k]), c[4])

\* where the camera's point u = <<column, row>> is on the device
DeviceAt(cam, icp, u) ==
    TLCEval(<<RSub(RDiv(RMul(2, RAdd(u[1], Half(icp))), cam.W), 1), RSub(RDiv(RMul(2, RAdd(u[2], Half(icp))), cam.H), 1)>>)

\* a matrix that does it (see GLDesign)
ProjectionMatrix(cam, zn, zf, icp) ==
    LET d == RSub(zn, zf) IN
    <<<<RDiv(RMul(2, cam.int[1][1]), cam.W), "0", "0", "0">>,
      <<"0", RDiv(RMul(-2, cam.int[2][2]), cam.H), "0", "0">>,
      <<RSub(1, RDiv(RMul(2, RAdd(cam.int[1][3], Half(icp))), cam.W)), RSub(1, RDiv(RMul(2, RAdd(cam.int[2][3], Half(icp))), cam.H)),
        RDiv(RAdd(zf, zn), d), "-1">>,
      <<"0", "0", RDiv(RMul(2, RMul(zf, zn)), d), "0">>>>

GStart(p) == [pc |-> "camera", p |-> p]
GStep(cam, m, s) ==
    CASE s.pc = "camera" -> [pc |-> "gl", p |-> Flipped(s.p)]
      [] s.pc = "gl" -> LET c == RowTimes(s.p, m) IN [pc |-> IF Kept(c) THEN "clip" ELSE "outside", p |-> c]
      [] s.pc = "clip" -> [pc |-> "device", p |-> Divided(s.p)]
      [] s.pc = "device" -> [pc |-> "window", p |-> Windowed(cam, s.p)]

(* ------------------------------ fragments ------------------------------ *)
\* q as in Scene3D, textured, normals n, p the projected vertices; s the pixel's place in the camera's coordinates
Cross2(a, b, c) == RSub(RMul(RSub(b[1], a[1]), RSub(c[2], a[2])), RMul(RSub(b[2], a[2]), RSub(c[1], a[1])))
Corner(q, p, k, n) == P(p, q.m.faces[k][n])
Sides(q, p, k, s) == TLCEval([n \in 1..3 |-> Cross2(Corner(q, p, k, (n % 3) + 1), Corner(q, p, k, ((n + 1) % 3) + 1), s)])
Long2(q, p, k) == TLCEval([n \in 1..3 |-> LET a == Corner(q, p, k, (n % 3) + 1)  b == Corner(q, p, k, ((n + 1) % 3) + 1)
                                          IN  RAdd(RSq(RSub(a[1], b[1])), RSq(RSub(a[2], b[2])))])
\* further than this from the line of a side
Margin2 == "1/16"
Far(e, l2) == RLe(RMul(Margin2, l2), RSq(e))
\* "in", "out" or "near" (the side)
Inside(q, p, k, s) ==
    LET a == Cross2(Corner(q, p, k, 1), Corner(q, p, k, 2), Corner(q, p, k, 3))
        e == Sides(q, p, k, s)  l == Long2(q, p, k)
        pos(n) == RSign(e[n]) * RSign(a)
    IN  IF \E n \in 1..3 : pos(n) < 0 /\ Far(e[n], l[n]) THEN "out"
        ELSE IF \A n \in 1..3 : pos(n) > 0 /\ Far(e[n], l[n]) THEN "in" ELSE "near"
\* perspective correct weights of the corners, and the depth
Weights(q, p, k, s) ==
    LET e == Sides(q, p, k, s)
        a == Cross2(Corner(q, p, k, 1), Corner(q, p, k, 2), Corner(q, p, k, 3))
        b == TLCEval([n \in 1..3 |-> RDiv(RDiv(e[n], a), Corner(q, p, k, n)[3])])
        sum == TLCEval(RSum(b))
    IN  [w |-> TLCEval([n \in 1..3 |-> RDiv(b[n], sum)]), z |-> TLCEval(RDiv("1", sum))]
Mix3(w, a, b, c) == TLCEval([i \in DOMAIN a |-> RSum(<<RMul(w[1], a[i]), RMul(w[2], b[i]), RMul(w[3], c[i])>>)])

\* the light at a face's point; <<>> where the interpolated normal is too short to have a direction
Lit(q, n, k, w) ==
    LET f == q.m.faces[k]
        v == Mix3(w, P(n, f[1]), P(n, f[2]), P(n, f[3]))
    IN  IF RLt(InnerP(v, v), "1/50") THEN <<>>
        ELSE LET d == TLCEval(RNeg(RDiv(InnerP(v, q.light), RSqrt(InnerP(v, v))))) IN <<RAdd(q.ambient, IF RSign(d) > 0 THEN d ELSE "0")>>
TextureAt(q, k, w) ==
    LET f == q.facesuv[k]  u == Mix3(w, P(q.uv, f[1]), P(q.uv, f[2]), P(q.uv, f[3])) IN TLCEval(Bilinear(q, u[1], u[2]))
Shown(x) == RMin("1", RMax("0", x))

\* what is at pixel <<column, row>>: [kind |-> "bg" | "open" | "face", color]
Open == [kind |-> "open", color |-> <<>>]
Fragment(q, n, p, icp, pix) ==
    LET off == Half(icp)
        s == <<RSub(RAdd(pix[1], "1/2"), off), RSub(RAdd(pix[2], "1/2"), off)>>
        place == TLCEval([k \in F(q.m) |-> Inside(q, p, k, s)])
        on == {k \in F(q.m) : place[k] = "in"}
    IN  IF \E k \in F(q.m) : place[k] = "near" THEN Open
        ELSE IF on = {} THEN [kind |-> "bg", color |-> [c \in 1..3 |-> Shown(q.bgcolor[c])]]
        ELSE LET at == TLCEval([k \in on |-> Weights(q, p, k, s)])
                 first == CHOOSE k \in on : \A j \in on : RLe(at[k].z, at[j].z)
                 close == \E j \in on \ {first} : RLt(at[j].z, RMul("51/50", at[first].z))
                 front == Visible(q.m, p, first)
             IN  IF close \/ ~front THEN Open
                 ELSE LET l == Lit(q, n, first, at[first].w) IN
                      IF l = <<>> THEN Open
                      ELSE [kind |-> "face", color |-> LET t == TextureAt(q, first, at[first].w) IN [c \in 1..3 |-> Shown(RMul(l[1], t[c]))]]
=============================================================================
