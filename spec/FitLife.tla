------------------------------ MODULE FitLife -------------------------------
(***************************************************************************)
(* The life of a fitter: steps, resets, changes of the image, of the       *)
(* background, of the options (what is fitted, and how fast) and of the    *)
(* pose that the next reset starts from.                                   *)
(*                                                                         *)
(*   pose    the pose a reset starts from                                  *)
(*   run     what determines the fitter's state: the pose, image and       *)
(*           background it started from, and what happened since then;     *)
(*           nothing that happened before the last reset                   *)
(* "many" is as many steps as it takes to leave the initial phase of the   *)
(* fitters that have one.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Images, Backs, Poses, Options, Long

VARIABLES pose, run, hist
vars == <<pose, run, hist>>

O(op, k) == [op |-> op, k |-> k]
Ops == {O("step", 0), O("reset", 0)} \cup {O("image", k) : k \in Images} \cup {O("back", k) : k \in Backs} \cup {O("pose", k) : k \in Poses}
       \cup {O("options", k) : k \in Options}
       \cup (IF Long THEN {O("many", 0)} ELSE {})

Seen(r, what, start) == LET is == {i \in DOMAIN r : r[i].op = what} IN
                        IF is = {} THEN start ELSE r[CHOOSE i \in is : \A j \in is : j <= i].k
Image(r) == Seen(r.events, "image", r.image)
Back(r) == Seen(r.events, "back", r.back)
Options_(r) == Seen(r.events, "options", r.options)
Started(p, i, b, o) == [pose |-> p, image |-> i, back |-> b, options |-> o, events |-> <<>>]
Apply(s, o) ==
    CASE o.op = "pose" -> [s EXCEPT !.pose = o.k]
      [] o.op = "reset" -> [s EXCEPT !.run = Started(s.pose, Image(@), Back(@), Options_(@))]
      [] o.op = "image" /\ s.run.events = <<>> -> [s EXCEPT !.run.image = o.k]
      [] o.op = "back" /\ s.run.events = <<>> -> [s EXCEPT !.run.back = o.k]
      [] o.op = "options" /\ s.run.events = <<>> -> [s EXCEPT !.run.options = o.k]
      [] OTHER -> [s EXCEPT !.run.events = Append(@, o)]
Allowed(s, o) == o.op = "many" => \A e \in DOMAIN s.run.events : s.run.events[e].op # "many"

State0 == [pose |-> 1, run |-> Started(1, 1, 1, 1)]
State == [pose |-> pose, run |-> run]
Init == pose = 1 /\ run = State0.run /\ hist = <<>>
Do(o) == /\ Len(hist) < Depth /\ Allowed(State, o)
         /\ LET n == Apply(State, o) IN pose' = n.pose /\ run' = n.run /\ hist' = Append(hist, [op |-> o.op, k |-> o.k, run |-> n.run])
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Last == hist'[Len(hist')].op
ResetForgets == [][Last = "reset" => run'.events = <<>> /\ run'.pose = pose /\ Image(run') = Image(run) /\ Back(run') = Back(run) /\ Options_(run') = Options_(run)]_vars
PosesWait == [][Last = "pose" => run' = run]_vars
OnlyResetsShorten == [][Last # "reset" => Len(run'.events) >= Len(run.events)]_vars
Current == /\ \A i \in DOMAIN hist : hist[i].op = "image" /\ (\A j \in DOMAIN hist : j > i => hist[j].op # "image") => Image(run) = hist[i].k
           /\ \A i \in DOMAIN hist : hist[i].op = "back" /\ (\A j \in DOMAIN hist : j > i => hist[j].op # "back") => Back(run) = hist[i].k
           /\ \A i \in DOMAIN hist : hist[i].op = "options" /\ (\A j \in DOMAIN hist : j > i => hist[j].op # "options") => Options_(run) = hist[i].k
\* (a history that does not end with a step is the beginning of one that does; long ones are about what a reset makes of a long past)
Telling == hist[Depth].op \in {"step", "many"} /\ (Long => \E i, j \in DOMAIN hist : i < j /\ hist[i].op = "many" /\ hist[j].op = "reset")
Emit == Len(hist) = Depth /\ Telling => PrintT("CASE" \o ToJson(hist))
=============================================================================
