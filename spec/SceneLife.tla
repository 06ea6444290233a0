----------------------------- MODULE SceneLife ------------------------------
(***************************************************************************)
(* The life of a 3D scene: its mesh is moved, coloured or replaced, its    *)
(* light, background or antialiasing width changed, it is rendered         *)
(* (colours, depth, attributes) from several cameras, and backward passes  *)
(* go back through the last rendering.                                     *)
(*                                                                         *)
(*   now    what the scene holds: mesh, light, back(ground), width, and    *)
(*          the pose and color of every mesh                               *)
(*   last   the last rendering: [kind, view] and what it was made of       *)
(*   acc    adjoints given since the last rendering or clearing            *)
(* A backward pass of another kind than the last rendering is refused.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Two, Views, Adjs,
          Changes  \* what may be changed

VARIABLES now, last, drawn, acc, hist
vars == <<now, last, drawn, acc, hist>>

Kinds == {"render", "depth", "deferred"}
Backward == [render_backward |-> "render", depth_backward |-> "depth"]
AllChanges == {"pose", "color", "mesh", "light", "back", "width"}
OfTheMesh == {"pose", "color"}
O(op, k) == [op |-> op, k |-> k]
Ops == {O(c, k) : c \in Changes, k \in Two} \cup {O(q, v) : q \in Kinds, v \in Views}
       \cup {O(b, a) : b \in DOMAIN Backward, a \in Adjs} \cup {O("clear", 0)}

Now0 == [mesh |-> 1, light |-> 1, back |-> 1, width |-> 1, pose |-> <<1, 1>>, color |-> <<1, 1>>]
Made(n) == [mesh |-> n.mesh, light |-> n.light, back |-> n.back, width |-> n.width, pose |-> n.pose[n.mesh], color |-> n.color[n.mesh]]
Unrendered == [kind |-> "none", view |-> 1] @@ Made(Now0)
\* what was rendered is still what the scene holds
Matters(kind) == IF kind = "render" THEN {"mesh", "pose", "color", "light", "width"} ELSE {"mesh", "pose", "width"}
Current(s) == \A c \in Matters(s.last.kind) : s.last[c] = Made(s.now)[c]
Refused(s, o) == o.op \in DOMAIN Backward /\ Backward[o.op] # s.last.kind
Allowed(s, o) == /\ o.op \in DOMAIN Backward /\ ~Refused(s, o) => Current(s)
                 /\ o.op \in DOMAIN Backward \cup {"clear"} => s.drawn
Apply(s, o) ==
    CASE o.op \in OfTheMesh -> [s EXCEPT !.now[o.op][s.now.mesh] = o.k]
      [] o.op \in AllChanges \ OfTheMesh -> [s EXCEPT !.now[o.op] = o.k]
      [] o.op \in Kinds -> [s EXCEPT !.last = [kind |-> o.op, view |-> o.k] @@ Made(s.now), !.drawn = s.drawn \/ o.op # "deferred",
                                     !.acc = IF o.op = "deferred" THEN @ ELSE <<>>]
      [] o.op = "clear" -> [s EXCEPT !.acc = <<>>]
      [] Refused(s, o) -> s
      [] OTHER -> [s EXCEPT !.acc = Append(@, o.k)]

State0 == [now |-> Now0, last |-> Unrendered, drawn |-> FALSE, acc |-> <<>>]
State == [now |-> now, last |-> last, drawn |-> drawn, acc |-> acc]
Init == now = Now0 /\ last = Unrendered /\ drawn = FALSE /\ acc = <<>> /\ hist = <<>>
Become(n, o) == now' = n.now /\ last' = n.last /\ drawn' = n.drawn /\ acc' = n.acc /\ hist' = Append(hist, o)
Do(o) == Len(hist) < Depth /\ Allowed(State, o) /\ Become(Apply(State, o), o)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == last.kind \in Kinds \cup {"none"} /\ (acc # <<>> => drawn)
RenderingsStartAnew == [][hist'[Len(hist')].op \in {"render", "depth", "clear"} => acc' = <<>>]_vars
OnlyMatchingPassesCount == [][acc' # acc /\ acc' # <<>> => Backward[hist'[Len(hist')].op] = last.kind]_vars
ChangesAreNotRenderings == [][hist'[Len(hist')].op \in AllChanges => last' = last /\ acc' = acc]_vars
\* moving or colouring a mesh leaves the other as it is
MeshesAreApart == [][\A c \in OfTheMesh : \A m \in Two : m # now.mesh => now'[c][m] = now[c][m]]_vars
Emit == Len(hist) = Depth => PrintT("CASE" \o ToJson(hist))
=============================================================================
