------------------------------ MODULE MeshLab ------------------------------
(***************************************************************************)
(* Cameras as MeshLab projects describe them ("shots"): a record           *)
(*   trans   minus the place of the camera                                 *)
(*   rot     rows: the camera's axes, x right, y up, z backwards           *)
(*   focal   focal length in mm       pixel   size of a pixel in mm        *)
(*   center  pixel of the optical axis (rows from the top)                 *)
(*   view    size of the image                                             *)
(* A point goes through Place, Turn, Divide and Measure.                   *)
(***************************************************************************)
EXTENDS Camera

ShotStart(x) == [pc |-> "world", p |-> x]
ShotStep(shot, s) ==
    CASE s.pc = "world" -> [pc |-> "placed", p |-> [k \in 1..3 |-> RAdd(s.p[k], shot.trans[k])]]
      [] s.pc = "placed" -> [pc |-> "turned", p |-> MatVec(shot.rot, s.p)]
      [] s.pc = "turned" -> IF RSign(s.p[3]) >= 0 THEN [pc |-> "behind", p |-> s.p]
                            ELSE [pc |-> "divided", p |-> <<RDiv(RMul(shot.focal, s.p[1]), RNeg(s.p[3])), RDiv(RMul(shot.focal, s.p[2]), RNeg(s.p[3]))>>]
      [] s.pc = "divided" -> [pc |-> "pixel", p |-> <<RAdd(shot.center[1], RDiv(s.p[1], shot.pixel[1])), RSub(shot.center[2], RDiv(s.p[2], shot.pixel[2]))>>]
RECURSIVE ShotRun(_, _)
ShotRun(shot, s) == IF s.pc \in {"behind", "pixel"} THEN s ELSE ShotRun(shot, TLCEval(ShotStep(shot, s)))
ShotProject(shot, x) == ShotRun(shot, ShotStart(x))

\* the shot of a camera without skew (its rotation R: a point x becomes R x + t)
ShotOf(cam) ==
    [trans |-> [k \in 1..3 |-> Dot3(Transp(Rot(cam.ext))[k], <<cam.ext[1][4], cam.ext[2][4], cam.ext[3][4]>>)],
     rot |-> <<Rot(cam.ext)[1], [k \in 1..3 |-> RNeg(Rot(cam.ext)[2][k])], [k \in 1..3 |-> RNeg(Rot(cam.ext)[3][k])]>>,
     focal |-> cam.int[1][1], pixel |-> <<"1", RDiv(cam.int[1][1], cam.int[2][2])>>,
     center |-> <<cam.int[1][3], cam.int[2][3]>>, view |-> <<cam.W, cam.H>>]
=============================================================================
