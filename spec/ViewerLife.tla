----------------------------- MODULE ViewerLife ------------------------------
(***************************************************************************)
(* Histories of commands of the viewer.                                    *)
(***************************************************************************)
EXTENDS Viewer, Integers, Sequences, Json

CONSTANTS Depth, Moves, Sizes, Lights, KeysUsed, Starts

VARIABLES s, hist, first
vars == <<s, hist, first>>
O(op, k, m) == [op |-> op, k |-> k, m |-> m]
Mods == {"", "ctrl", "shift"}
Ops == {O("down", b, m) : b \in {"left", "right", "middle"}, m \in Mods} \cup {O("move", k, m) : k \in Moves, m \in Mods} \cup {O("up", "", "")}
       \cup {O("hover", "", m) : m \in Mods} \cup {O("key", k, "") : k \in KeysUsed} \cup {O("resize", k, "") : k \in Sizes} \cup {O("light", k, "") : k \in Lights}
Options(x) == [gl |-> x.gl, persp |-> x.persp, light |-> x.light, aa |-> x.aa, rec |-> x.rec, lit |-> x.lit, mode |-> x.mode]
AllStarts == [gl : BOOLEAN, light : BOOLEAN, aa : BOOLEAN]
OneStart == {[gl |-> FALSE, light |-> TRUE, aa |-> TRUE]}

Init == first \in Starts /\ s = State0(first) /\ hist = <<>>
\* (no panning once the camera was put back: where the mouse then moves a camera that is displayed no more, a known defect, it still moves where the next c goes)
Clear(o) == Motion(s, o, <<"1", "1">>) = "pan" => \A n \in DOMAIN hist : hist[n] # O("key", "c", "")
Do(o) == Len(hist) < Depth /\ Allowed(s, o) /\ Clear(o) /\ s' = Apply(s, o) /\ hist' = Append(hist, o) /\ first' = first
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Ds == {<<"0", "0">>, <<"3", "-5">>, <<"-7", "2">>, <<"4", "4">>}
\* only dragging, resizing the window and putting the camera back move the camera
OnlyDragsMove == \A o \in Ops, d \in Ds : Allowed(s, o) /\ Motion(s, o, d) # "" => (o.op = "move" /\ s.btn # "") \/ o.op = "resize" \/ o = O("key", "c", "")
\* the mouse changes no option; a key at most the one it is for, and pressing it again undoes it
MouseKeepsOptions == [][hist' # hist => hist'[Len(hist')].op \in {"key", "light"} \/ Options(s') = Options(s)]_vars
Toggled(k) == LET n == Key(s, k) IN {f \in DOMAIN Options(s) : Options(n)[f] # Options(s)[f]}
OneOption == \A k \in KeysUsed : Toggled(k) \subseteq (CASE k = "r" -> {"gl"} [] k = "p" -> {"persp"} [] k = "a" -> {"aa"} [] k = "l" -> {"light"} [] k = "s" -> {"rec"}
                                                      [] k \in {"t", "c"} -> {"mode"} [] OTHER -> {})
Undone == \A k \in KeysUsed \ {"c"} : Options(Key(Key(s, k), k)) = Options(s)
OneMode == \A o \in Ops, d \in Ds : Allowed(s, o) => Motion(s, o, d) \in (IF s.mode = "trackball" THEN {"", "orbit", "roll", "pan", "dolly", "zoom", "resize", "recenter"}
                                                                        ELSE {"", "look", "bank", "pan", "dolly", "zoom", "resize", "recenter"})
Emit == Len(hist) = Depth => PrintT("CASE" \o ToJson([start |-> first, ops |-> hist]))
=============================================================================
