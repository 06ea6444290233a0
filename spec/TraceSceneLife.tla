-------------------------- MODULE TraceSceneLife ---------------------------
(***************************************************************************)
(* Validates recorded histories of real 3D scenes against SceneLife.       *)
(* Doc.tables[world] tells what fresh scenes give: out[key], where key     *)
(* tells kind, view and what it is made of, identifies the images;         *)
(* grad[key][adjoint] are the gradients that one backward pass leaves.     *)
(***************************************************************************)
EXTENDS SceneLife, Rat, IOUtils, SequencesExt

Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Doc.traces
VARIABLES t, i, bad
TInit == t \in 1..Len(Traces) /\ i = 0 /\ bad = <<>> /\ Init

C(clause, b) == IF b THEN <<>> ELSE <<[clause |-> clause, at |-> i + 1]>>
Key(l) == l.kind \o FoldLeft(LAMBDA s, k : s \o ToString(k), "", <<l.view, l.mesh, l.pose, l.color, l.light, l.back, l.width>>)
Of(tab, l) == tab[Key(l)]
RECURSIVE Total(_, _)
Total(rows, as) == IF Len(as) = 1 THEN rows[as[1]] ELSE LET r == Total(rows, Tail(as)) IN [k \in DOMAIN r |-> RAdd(r[k], rows[as[1]][k])]

Judge(tr, st, s, n) ==
    LET tab == Doc.tables[tr.world]  o == st.op IN
    IF Refused(s, o)
    THEN C("a backward pass that does not match the last rendering must be refused", st.status # "ok")
         \o C("a refused backward pass changed the gradients", st.unchanged)
    ELSE C("status of " \o o.op, st.status = "ok")
         \o (IF st.status # "ok" THEN <<>> ELSE
               (IF o.op \in Kinds THEN C(o.op \o " is not that of the current scene", st.out = Of(tab.out, n.last)) ELSE <<>>)
               \o (IF o.op \in DOMAIN Backward
                   THEN C("gradients are not the sum of the contributions since the last rendering or clearing",
                          RFirstFar(st.g, Total(Of(tab.grad, n.last), n.acc), Doc.tol) = 0) ELSE <<>>)
               \o (IF o.op = "clear" THEN C("gradients are not zero after a clearing", st.zero) ELSE <<>>)
               \o (IF o.op \in {"light", "back", "width", "deferred"} THEN C(o.op \o " changed the gradients", st.unchanged) ELSE <<>>)
               \o C("an array returned before, or given, changed", st.kept))

TStep ==
    LET tr == Traces[t] IN
    /\ i < Len(tr.steps)
    /\ LET st == tr.steps[i + 1]  n == Apply(State, st.op) IN
          /\ Allowed(State, st.op)
          /\ Become(n, st.op)
          /\ bad' = bad \o Judge(tr, st, State, n)
    /\ i' = i + 1 /\ t' = t
TEnd ==
    /\ i = Len(Traces[t].steps)
    /\ PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad, steps |-> i, contributions |-> Len(acc)]))
    /\ i' = i + 1 /\ UNCHANGED <<vars, t, bad>>
TNext == TStep \/ TEnd
=============================================================================
