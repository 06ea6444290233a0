------------------------------ MODULE MeshLife ------------------------------
(***************************************************************************)
(* The life of a mesh: its vertices and colours are replaced, derived      *)
(* quantities are requested (and kept by implementations until they are    *)
(* stale), and backward passes of the normals accumulate.                  *)
(*                                                                         *)
(*   pos, col   the current positions and colours                          *)
(*   ready      the vertex normals of pos have been requested: a backward  *)
(*              pass goes back through the last requested normals          *)
(*   grads      contributions <<pos, adjoint>> since pos was set           *)
(*   cache      what an implementation may remember: for each kind of      *)
(*              request, "stale" or the positions it was computed for      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Poses, Colors, Adjs, Views

VARIABLES pos, col, ready, grads, cache, hist
vars == <<pos, col, ready, grads, cache, hist>>

Cached == {"face_normals", "vertex_normals"}
O(op, k) == [op |-> op, k |-> k]
Ops == {O("set", k) : k \in Poses} \cup {O("colors", k) : k \in Colors} \cup {O("backward", a) : a \in Adjs}
       \cup {O("silhouette", v) : v \in Views} \cup {O(q, 0) : q \in Cached \cup {"volume", "boundary", "subdivide"}}

Allowed(s, o) == o.op = "backward" => s.ready
Apply(s, o) ==
    CASE o.op = "set" -> [s EXCEPT !.pos = o.k, !.ready = FALSE, !.grads = <<>>, !.cache = [q \in Cached |-> "stale"]]
      [] o.op = "colors" -> [s EXCEPT !.col = o.k]
      [] o.op = "backward" -> [s EXCEPT !.grads = Append(@, <<s.pos, o.k>>)]
      [] o.op = "face_normals" -> [s EXCEPT !.cache["face_normals"] = IF @ = "stale" THEN ToString(s.pos) ELSE @]
      [] o.op = "vertex_normals" ->
            [s EXCEPT !.ready = TRUE, !.cache = [q \in Cached |-> IF @[q] = "stale" THEN ToString(s.pos) ELSE @[q]]]
      [] OTHER -> s

State0 == [pos |-> CHOOSE p \in Poses : \A q \in Poses : p <= q, col |-> CHOOSE p \in Colors : \A q \in Colors : p <= q,
           ready |-> FALSE, grads |-> <<>>, cache |-> [q \in Cached |-> "stale"]]
State == [pos |-> pos, col |-> col, ready |-> ready, grads |-> grads, cache |-> cache]
Init == pos = State0.pos /\ col = State0.col /\ ready = FALSE /\ grads = <<>> /\ cache = State0.cache /\ hist = <<>>
Do(o) == /\ Len(hist) < Depth /\ Allowed(State, o)
         /\ LET n == Apply(State, o) IN pos' = n.pos /\ col' = n.col /\ ready' = n.ready /\ grads' = n.grads /\ cache' = n.cache
         /\ hist' = Append(hist, o)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* remembering is sound: whatever is remembered is that of the current positions
CacheIsCurrent == \A q \in Cached : cache[q] \in {"stale", ToString(pos)}
GradientsAreCurrent == \A i \in DOMAIN grads : grads[i][1] = pos
ReadyMeansComputed == ready => cache["vertex_normals"] = ToString(pos)
RequestsChangeNothing == [][hist'[Len(hist')].op \notin {"set", "backward", "colors"} => pos' = pos /\ col' = col /\ grads' = grads]_vars
Emit == Len(hist) = Depth => PrintT("CASE" \o ToJson(hist))
=============================================================================
