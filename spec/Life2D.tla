------------------------------- MODULE Life2D -------------------------------
(***************************************************************************)
(* The life of a 2.5D scene: changes of its arrays, renderings, backward   *)
(* passes, clearings, and what they leave in the gradient arrays and in    *)
(* everybody's arrays.                                                     *)
(*                                                                         *)
(*   look    what the arrays of the scene hold                             *)
(*   last    the last rendering: kind "none", "plain" or "error", its      *)
(*           width and look, and whether a backward pass without copies    *)
(*           has already consumed the image it stored ("spent")            *)
(*   grads   the contributions in the gradient arrays, a sequence of       *)
(*           <<kind, sigma, adjoint, look>>; the arrays hold their sum     *)
(*   hist    the operations so far                                         *)
(*                                                                         *)
(* Operations: records [op, kind, sg, adj, copies, clear]; unused fields   *)
(* have a fixed value.  A backward pass of another kind than the last      *)
(* rendering is refused and changes nothing.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Sigmas, Adjs, AllCompares, Looks

VARIABLES look, last, grads, hist
vars == <<look, last, grads, hist>>

Kinds == {"plain", "error"}
O(op, kind, sg, adj, copies, clear) == [op |-> op, kind |-> kind, sg |-> sg, adj |-> adj, copies |-> copies, clear |-> clear]

RenderOps   == {O("render", k, s, 0, TRUE, FALSE) : k \in Kinds, s \in Sigmas}
BackOps     == {O("backward", k, 0, a, c, FALSE) : k \in Kinds, a \in Adjs, c \in BOOLEAN}
ClearOps    == {O("clear", "none", 0, 0, TRUE, FALSE)}
CompareOps  == {o \in {O("compare", k, s, 0, c, cl) : k \in Kinds, s \in Sigmas, c \in BOOLEAN, cl \in BOOLEAN} :
                    AllCompares \/ (o.sg = 2 /\ (o.copies \/ o.clear))}
\* (sg: the look)
AlterOps   == {O("alter", "none", k, 0, c, FALSE) : k \in IF Looks = {1} THEN {} ELSE Looks, c \in BOOLEAN}
Ops == AlterOps \cup RenderOps \cup BackOps \cup ClearOps \cup CompareOps

Fresh == [kind |-> "none", sg |-> 0, look |-> 1, spent |-> FALSE]
State0 == [look |-> 1, last |-> Fresh, grads |-> <<>>]

\* the adjoint that render_compare_and_backward uses is number 0 of its kind and width
Refused(s, o) == o.op = "backward" /\ o.kind # s.last.kind
\* nothing is promised on an image that a backward pass without copies has consumed, nor on one of arrays that are no more
Allowed(s, o) == o.op = "backward" /\ o.kind = s.last.kind => ~s.last.spent /\ s.look = s.last.look

Apply(s, o) ==
    CASE o.op = "alter" -> [s EXCEPT !.look = o.sg]
      [] o.op = "render" -> [s EXCEPT !.last = [kind |-> o.kind, sg |-> o.sg, look |-> s.look, spent |-> FALSE]]
      [] o.op = "backward" /\ Refused(s, o) -> s
      [] o.op = "backward" /\ ~Refused(s, o) ->
            [s EXCEPT !.grads = Append(@, <<o.kind, s.last.sg, o.adj, s.look>>), !.last.spent = @ \/ ~o.copies]
      [] o.op = "clear" -> [s EXCEPT !.grads = <<>>]
      [] o.op = "compare" ->
            [look |-> s.look, last |-> [kind |-> o.kind, sg |-> o.sg, look |-> s.look, spent |-> ~o.copies],
             grads |-> Append(IF o.clear THEN <<>> ELSE s.grads, <<o.kind, o.sg, 0, s.look>>)]

State == [look |-> look, last |-> last, grads |-> grads]
Init == look = 1 /\ last = State0.last /\ grads = State0.grads /\ hist = <<>>
Become(n, o) == look' = n.look /\ last' = n.last /\ grads' = n.grads /\ hist' = Append(hist, o)
Do(o) == Len(hist) < Depth /\ Allowed(State, o) /\ Become(Apply(State, o), o)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* gradients only ever grow, by one contribution of the last rendering, or are cleared
Additive == [][\/ grads' = grads
               \/ grads' = <<>>
               \/ \E s \in Sigmas, a \in Adjs \cup {0} :
                    grads' \in {Append(grads, <<last'.kind, s, a, look>>), <<<<last'.kind, s, a, look>>>>} /\ s = last'.sg /\ look = last'.look]_vars
RenderingsLeaveGradients == [][hist'[Len(hist')].op \in {"render", "alter"} => grads' = grads]_vars
TypeOK == last.kind \in Kinds \cup {"none"} /\ Len(grads) <= Len(hist)

\* for the conformance check: every history of length Depth
Emit == Len(hist) = Depth => PrintT("CASE" \o ToJson(hist))
=============================================================================
