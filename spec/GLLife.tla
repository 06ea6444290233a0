------------------------------- MODULE GLLife -------------------------------
(***************************************************************************)
(* The life of OpenGL renderers of deodr scenes: what they are given, and  *)
(* what their next rendering shows.  Operations are on renderer r:         *)
(*   scene k    everything is taken from scene k                           *)
(*   light k, mesh k, texture k   only that                                *)
(*   render c   with camera c (cameras have various sizes)                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Scenes, Cameras, Renderers

VARIABLES st, hist
vars == <<st, hist>>

Unset == [mesh |-> 0, light |-> 0, texture |-> 0, back |-> 0, pixels |-> 0]
O(op, k, r) == [op |-> op, k |-> k, r |-> r]
Ops == {O(op, k, r) : op \in {"scene", "light", "mesh", "texture"}, k \in Scenes, r \in Renderers} \cup {O("render", c, r) : c \in Cameras, r \in Renderers}
Allowed(ss, o) == ss[o.r] = Unset => o.op = "scene"
Given(s, o) ==
    CASE o.op = "scene" -> [mesh |-> o.k, light |-> o.k, texture |-> o.k, back |-> o.k, pixels |-> o.k]
      [] o.op = "light" -> [s EXCEPT !.light = o.k]
      [] o.op = "mesh" -> [s EXCEPT !.mesh = o.k, !.texture = o.k]
      [] o.op = "texture" -> [s EXCEPT !.texture = o.k]
      [] o.op = "render" -> s

Apply(ss, o) == [ss EXCEPT ![o.r] = Given(@, o)]

Init == st = [r \in Renderers |-> Unset] /\ hist = <<>>
Do(o) == Len(hist) < Depth /\ Allowed(st, o) /\ st' = Apply(st, o) /\ hist' = Append(hist, o)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

Last(r, what) == LET is == {i \in DOMAIN hist : hist[i].r = r /\ hist[i].op \in what} IN IF is = {} THEN 0 ELSE hist[CHOOSE i \in is : \A j \in is : j <= i].k
(* ------------------------------ properties ------------------------------ *)
\* the last thing given to a renderer is what it holds, whatever was given to others
LastWins == \A r \in Renderers : LET s == st[r] IN
            /\ s.light = Last(r, {"scene", "light"}) /\ s.mesh = Last(r, {"scene", "mesh"}) /\ s.texture = Last(r, {"scene", "mesh", "texture"})
            /\ s.back = Last(r, {"scene"}) /\ s.pixels = Last(r, {"scene"})
RenderingChangesNothing == [][hist'[Len(hist')].op = "render" => st' = st]_vars
\* histories that end with a rendering, and do not render twice in a row with the same camera
Telling == hist[Depth].op = "render" /\ \A i \in 1..(Depth - 1) : hist[i] # hist[i + 1]
Emit == Len(hist) = Depth /\ Telling => PrintT("CASE" \o ToJson(hist))
=============================================================================
