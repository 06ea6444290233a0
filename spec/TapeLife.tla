------------------------------ MODULE TapeLife ------------------------------
(***************************************************************************)
(* A scene rendered through an automatic differentiation library.  Every   *)
(* rendering leaves a tape; backward passes follow tapes in any order, one *)
(* at a time or all together, once or (kept tapes) several times, whatever *)
(* was rendered or changed since.  Gradients are added up in the variables *)
(* the tape was made from: the vertices of a pose, a light, the colours.   *)
(*                                                                         *)
(*   pose, light   what the scene holds now                                *)
(*   tapes         [kind, view, pose, light, alive]                        *)
(*   acc           contributions since gradients were last zero: a tape    *)
(*                 and the number of the adjoint that went through it      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Poses, Lights, Views, Adjs, Tapes

VARIABLES pose, light, tapes, acc, hist
vars == <<pose, light, tapes, acc, hist>>

Kinds == {"render", "depth"}
O(op, k, a) == [op |-> op, k |-> k, a |-> a]
Alive(s) == {n \in DOMAIN s.tapes : s.tapes[n].alive}
Ops(s) == {O("pose", k, 0) : k \in Poses} \cup {O("light", k, 0) : k \in Lights} \cup {O(q, v, 0) : q \in Kinds, v \in Views}
          \cup {O(q, n, a) : q \in {"back", "keep"}, n \in Alive(s), a \in Adjs} \cup {O("all", 0, a) : a \in Adjs} \cup {O("zero", 0, 0)}
Allowed(s, o) == /\ o \in Ops(s)
                 /\ o.op \in Kinds => Cardinality(Alive(s)) < Tapes
                 /\ o.op = "pose" => o.k # s.pose
                 /\ o.op = "light" => o.k # s.light
                 /\ o.op = "all" => Cardinality(Alive(s)) >= 2
                 /\ o.op = "zero" => s.acc # <<>>
Part(s, n, a) == [tape |-> [s.tapes[n] EXCEPT !.alive = TRUE], adj |-> a]
RECURSIVE Parts(_, _, _)
Parts(s, n, a) == IF n > Len(s.tapes) THEN <<>> ELSE (IF s.tapes[n].alive THEN <<Part(s, n, a)>> ELSE <<>>) \o Parts(s, n + 1, a)
Apply(s, o) ==
    CASE o.op = "pose" -> [s EXCEPT !.pose = o.k]
      [] o.op = "light" -> [s EXCEPT !.light = o.k]
      [] o.op \in Kinds -> [s EXCEPT !.tapes = Append(@, [kind |-> o.op, view |-> o.k, pose |-> s.pose, light |-> s.light, alive |-> TRUE])]
      [] o.op = "keep" -> [s EXCEPT !.acc = Append(@, Part(s, o.k, o.a))]
      [] o.op = "back" -> [s EXCEPT !.acc = Append(@, Part(s, o.k, o.a)), !.tapes[o.k].alive = FALSE]
      [] o.op = "all" -> [s EXCEPT !.acc = @ \o Parts(s, 1, o.a), !.tapes = [n \in DOMAIN @ |-> [@[n] EXCEPT !.alive = FALSE]]]
      [] o.op = "zero" -> [s EXCEPT !.acc = <<>>]

State0 == [pose |-> 1, light |-> 1, tapes |-> <<>>, acc |-> <<>>]
State == [pose |-> pose, light |-> light, tapes |-> tapes, acc |-> acc]
Init == pose = 1 /\ light = 1 /\ tapes = <<>> /\ acc = <<>> /\ hist = <<>>
Become(n, o) == pose' = n.pose /\ light' = n.light /\ tapes' = n.tapes /\ acc' = n.acc /\ hist' = Append(hist, o)
Do(o) == Len(hist) < Depth /\ Allowed(State, o) /\ Become(Apply(State, o), o)
Next == \E o \in Ops(State) : Do(o)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Count(s, x) == Cardinality({n \in DOMAIN s : s[n] = x})
\* what a tape remembers does not change, and it is used up at most once
TapesAreFixed == [][\A n \in DOMAIN tapes : /\ n \in DOMAIN tapes'
                                            /\ [tapes'[n] EXCEPT !.alive = TRUE] = [tapes[n] EXCEPT !.alive = TRUE]
                                            /\ tapes'[n].alive => tapes[n].alive]_vars
OnlyBackwardCounts == [][acc' # acc => hist'[Len(hist')].op \in {"back", "keep", "all", "zero"}]_vars
\* backward passes through two tapes commute
Commute == \A m, n \in Alive(State), a, b \in Adjs : m # n =>
             LET one == Apply(Apply(State, O("back", m, a)), O("back", n, b))
                 two == Apply(Apply(State, O("back", n, b)), O("back", m, a))
             IN  one.tapes = two.tapes /\ \A k \in DOMAIN one.acc : Count(one.acc, one.acc[k]) = Count(two.acc, one.acc[k])
\* and together they are what they are one after the other
Together == \A a \in Adjs : Cardinality(Alive(State)) = 2 =>
             LET m == CHOOSE m \in Alive(State) : \A n \in Alive(State) : m <= n
                 n == CHOOSE n \in Alive(State) : n # m
             IN  Apply(State, O("all", 0, a)) = Apply(Apply(State, O("back", m, a)), O("back", n, a))
Telling == hist[Depth].op \in {"back", "keep", "all"}
Emit == Len(hist) = Depth /\ Telling => PrintT("CASE" \o ToJson(hist))
=============================================================================
