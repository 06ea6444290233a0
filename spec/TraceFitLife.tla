---------------------------- MODULE TraceFitLife ----------------------------
(***************************************************************************)
(* Validates recorded histories of real fitters against FitLife.           *)
(* Doc.tables[world] is a sequence of [run, state, out]: what a new fitter *)
(* to which only the events of the run happened holds as parameters, and   *)
(* what its last step returned (identifications of the arrays).            *)
(***************************************************************************)
EXTENDS FitLife, IOUtils

Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Doc.traces
VARIABLES t, i, bad
TInit == t \in 1..Len(Traces) /\ i = 0 /\ bad = <<>> /\ Init

C(clause, b) == IF b THEN <<>> ELSE <<[clause |-> clause, at |-> i + 1]>>
Fresh(w, r) == LET tab == Doc.tables[w] IN tab[CHOOSE k \in DOMAIN tab : tab[k].run = r]

Judge(tr, st, n) ==
    C("status of " \o st.op.op, st.status = "ok")
    \o (IF st.status # "ok" THEN <<>> ELSE
          LET f == Fresh(tr.world, n.run) IN
          C("parameters are not those of a new fitter after the same events", st.state = f.state)
          \o C("a step returned something else than a new fitter's", st.op.op \notin {"step", "many"} \/ st.out = f.out)
          \o C("an array returned before, or given, changed", st.kept))

TStep ==
    LET tr == Traces[t] IN
    /\ i < Len(tr.steps)
    /\ LET st == tr.steps[i + 1]  n == Apply(State, st.op) IN
          /\ Allowed(State, st.op)
          /\ pose' = n.pose /\ run' = n.run /\ hist' = <<>>
          /\ bad' = bad \o Judge(tr, st, n)
    /\ i' = i + 1 /\ t' = t
TEnd ==
    /\ i = Len(Traces[t].steps)
    /\ PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad, steps |-> i]))
    /\ i' = i + 1 /\ UNCHANGED <<vars, t, bad>>
TNext == TStep \/ TEnd
=============================================================================
