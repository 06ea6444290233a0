------------------------------ MODULE GLDesign ------------------------------
(***************************************************************************)
(* The vertex stages of OpenGL with the projection matrix of GL, for every *)
(* camera, point, pair of planes and convention of a small lattice: the    *)
(* window coordinates of a point are the pixel where the camera projects   *)
(* it, whose centre is at the half integer, depths grow from the near to   *)
(* the far plane and what is not between them is not drawn.                *)
(***************************************************************************)
EXTENDS GL

VARIABLES cam, zn, zf, icp, x, s
vars == <<cam, zn, zf, icp, x, s>>

Id == <<<<"1", "0", "0", "0">>, <<"0", "1", "0", "0">>, <<"0", "0", "1", "0">>>>
Cams == {[ext |-> Id, int |-> <<<<f, "0", cx>>, <<"0", g, cy>>, <<"0", "0", "1">>>>, dist |-> <<>>, W |-> 4, H |-> 3] :
            f \in {"2", "5"}, g \in {"2", "3"}, cx \in {"2", "3/2"}, cy \in {"1", "3/2"}}
Points == {<<a, b, c>> : a \in {"-1", "0", "1/2"}, b \in {"-1/3", "0", "2"}, c \in {"-1", "1/10", "1", "3", "4", "5"}}

Init == /\ cam \in Cams /\ zn \in {"1/2", "1"} /\ zf \in {"4", "9/2"} /\ icp \in BOOLEAN /\ x \in Points
        /\ s = GStart(x)
Next == /\ s.pc \notin {"window", "outside"}
        /\ s' = GStep(cam, ProjectionMatrix(cam, zn, zf, icp), s)
        /\ UNCHANGED <<cam, zn, zf, icp, x>>
Spec == Init /\ [][Next]_vars

U == Project(cam, x)
InWindow == /\ RLe("0", RAdd(U[1], Half(icp))) /\ RLe(RAdd(U[1], Half(icp)), cam.W)
            /\ RLe("0", RAdd(U[2], Half(icp))) /\ RLe(RAdd(U[2], Half(icp)), cam.H)
Between == RLe(zn, x[3]) /\ RLe(x[3], zf)
WindowIsPixel == s.pc = "window" => REq(s.p[1], RAdd(U[1], Half(icp))) /\ REq(s.p[2], RAdd(U[2], Half(icp)))
DeviceIsWhereItShouldBe == s.pc = "device" => LET d == DeviceAt(cam, icp, U) IN REq(s.p[1], d[1]) /\ REq(s.p[2], d[2])
DrawnIffSeen == /\ s.pc = "outside" => ~(Between /\ InWindow)
                /\ s.pc \in {"clip", "device", "window"} => Between /\ InWindow
DepthsGrow == s.pc = "device" =>
    /\ (REq(x[3], zn) <=> REq(s.p[3], "-1")) /\ (REq(x[3], zf) <=> REq(s.p[3], "1"))
    /\ \A z \in {"1/10", "1", "3", "4", "5"} : RLt(x[3], z) =>
          RLt(s.p[3], Divided(RowTimes(Flipped(<<x[1], x[2], z>>), ProjectionMatrix(cam, zn, zf, icp)))[3])
=============================================================================
