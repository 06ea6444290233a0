------------------------------- MODULE Camera -------------------------------
(***************************************************************************)
(* Cameras with the distortion model of OpenCV, in exact arithmetic.       *)
(*                                                                         *)
(* A camera is a record [ext, int, dist, W, H]: ext a 3 x 4 matrix, int a  *)
(* 3 x 3 matrix, dist <<>> or <<k1, k2, p1, p2, k3>>.  The projection of   *)
(* points is a pipeline of actions on the state [pc, p]:                   *)
(*   ToCamera  (world coordinates -> camera coordinates)                   *)
(*   Divide    (-> image plane, the depth is set aside)                    *)
(*   Distort   (when there are distortion coefficients)                    *)
(*   ToPixels  (intrinsic matrix)                                          *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, TLC

Dot3(a, b) == RSum(<<RMul(a[1], b[1]), RMul(a[2], b[2]), RMul(a[3], b[3])>>)
MatVec(m, v) == TLCEval([r \in 1..Len(m) |-> RDot(m[r], v)])
Col(m, c) == [r \in 1..Len(m) |-> m[r][c]]
Transp(m) == [c \in 1..Len(m[1]) |-> Col(m, c)]
Rot(ext) == [r \in 1..3 |-> <<ext[r][1], ext[r][2], ext[r][3]>>]

CamPoint(cam, x) == TLCEval([r \in 1..3 |-> RAdd(Dot3(Rot(cam.ext)[r], x), cam.ext[r][4])])
Plane(p) == TLCEval(<<RDiv(p[1], p[3]), RDiv(p[2], p[3])>>)
Distorted(d, q) ==
    LET x == q[1]  y == q[2]  r2 == TLCEval(RAdd(RSq(x), RSq(y)))
        rad == TLCEval(RSum(<<R(1), RMul(d[1], r2), RMul(d[2], RSq(r2)), RMul(d[5], RMul(r2, RSq(r2)))>>))
        xy2 == RMul(2, RMul(x, y))
    IN  TLCEval(<<RSum(<<RMul(x, rad), RMul(d[3], xy2), RMul(d[4], RAdd(r2, RMul(2, RSq(x))))>>),
          RSum(<<RMul(y, rad), RMul(d[3], RAdd(r2, RMul(2, RSq(y)))), RMul(d[4], xy2)>>)>>)
Pixel(cam, q) == TLCEval([r \in 1..2 |-> RSum(<<RMul(cam.int[r][1], q[1]), RMul(cam.int[r][2], q[2]), cam.int[r][3]>>)])

\* the whole pipeline on one point: <<column, row, depth>>
Project(cam, x) ==
    LET p == CamPoint(cam, x)
        q == IF cam.dist = <<>> THEN Plane(p) ELSE Distorted(cam.dist, Plane(p))
        u == Pixel(cam, q)
    IN  <<u[1], u[2], p[3]>>

(* the pipeline as a state machine, on a sequence of points *)
CInit(xs) == [pc |-> "world", p |-> xs, depth |-> <<>>]
CStep(cam, s) ==
    CASE s.pc = "world"  -> LET c == [i \in 1..Len(s.p) |-> CamPoint(cam, s.p[i])]
                            IN  [pc |-> "camera", p |-> c, depth |-> [i \in 1..Len(c) |-> c[i][3]]]
      [] s.pc = "camera" -> [s EXCEPT !.pc = IF cam.dist = <<>> THEN "distorted" ELSE "plane", !.p = [i \in 1..Len(s.p) |-> Plane(s.p[i])]]
      [] s.pc = "plane"  -> [s EXCEPT !.pc = "distorted", !.p = [i \in 1..Len(s.p) |-> Distorted(cam.dist, s.p[i])]]
      [] s.pc = "distorted" -> [s EXCEPT !.pc = "image", !.p = [i \in 1..Len(s.p) |-> Pixel(cam, s.p[i])]]

(* properties of the design *)
\* the pipeline is Project, and the points behind keep a depth <= 0
PipelineIsProject(cam, xs, s) ==
    s.pc = "image" => \A i \in 1..Len(xs) : LET e == Project(cam, xs[i]) IN
        REq(s.p[i][1], e[1]) /\ REq(s.p[i][2], e[2]) /\ REq(s.depth[i], e[3])
\* camera coordinates keep distances to the centre when the extrinsics hold a rotation
Near(a, b, tol) == \A k \in 1..Len(b) : RClose(a[k], b[k], tol)
=============================================================================
