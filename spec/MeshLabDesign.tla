--------------------------- MODULE MeshLabDesign ---------------------------
(***************************************************************************)
(* The shot of a camera projects points where the camera does, for every   *)
(* camera and point of a small lattice.                                    *)
(***************************************************************************)
EXTENDS MeshLab

VARIABLES cam, x, s
vars == <<cam, x, s>>

Perms == {<<a, b, c>> : a, b, c \in 1..3}
\* signed permutation matrices of determinant one, and a proper rotation that is none
Parity(p) == IF p \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>} THEN 1 ELSE -1
Turned == {[r \in 1..3 |-> [c \in 1..3 |-> IF p[r] = c THEN (IF g[r] = 1 THEN "1" ELSE "-1") ELSE "0"]] :
             <<p, g>> \in {<<p, g>> \in {q \in Perms : q[1] # q[2] /\ q[2] # q[3] /\ q[1] # q[3]} \X [1..3 -> {-1, 1}] : Parity(p) * g[1] * g[2] * g[3] = 1}}
          \cup {<<<<"3/5", "-4/5", "0">>, <<"4/5", "3/5", "0">>, <<"0", "0", "1">>>>}
Cams == {[ext |-> [r \in 1..3 |-> Append(m[r], o[r])], int |-> <<<<f, "0", "3/2">>, <<"0", "2", "5/4">>, <<"0", "0", "1">>>>, dist |-> <<>>, W |-> "4", H |-> "3"] :
            <<m, o, f>> \in Turned \X {<<"0", "0", "0">>, <<"1/2", "-1", "3">>} \X {"2", "5"}}
Points == {<<a, b, c>> : a \in {"-1", "1/2"}, b \in {"-1/3", "2"}, c \in {"-2", "1/10", "3"}}

Init == cam \in Cams /\ x \in Points /\ s = ShotStart(x)
Next == s.pc \notin {"pixel", "behind"} /\ s' = ShotStep(ShotOf(cam), s) /\ UNCHANGED <<cam, x>>
Spec == Init /\ [][Next]_vars

SamePixel == s.pc = "pixel" => LET u == Project(cam, x) IN REq(s.p[1], u[1]) /\ REq(s.p[2], u[2])
SameSide == /\ s.pc = "behind" => RSign(CamPoint(cam, x)[3]) <= 0
            /\ s.pc = "pixel" => RSign(CamPoint(cam, x)[3]) > 0
DistancesKept == s.pc = "turned" => LET p == CamPoint(cam, x) IN REq(Dot3(s.p, s.p), Dot3(p, p))
=============================================================================
