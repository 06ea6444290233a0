---------------------------- MODULE TraceValidity ---------------------------
(* What the real code did with the scenes of Validity: accepted or refused, and are the buffers intact. *)
EXTENDS Validity, IOUtils
Doc == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t
C(clause, b, tr) == IF b THEN <<>> ELSE <<[clause |-> clause, at |-> 0, call |-> tr.case.call, changed |-> tr.case.changed]>>
Judge(tr) ==
    LET v == ValidCall(tr.case.s, tr.case.call) IN
    IF v THEN C("a consistent scene is refused", tr.status = "ok", tr)
    ELSE C("an inconsistent scene is accepted", tr.status # "ok", tr)
         \o C("a refused call changed something", tr.intact, tr)
TInit == t = 0 /\ s = <<>> /\ before = <<>> /\ changed = {} /\ call = ""
TNext == /\ t < Len(Doc) /\ t' = t + 1
         /\ PrintT("VERDICT" \o ToJson([t |-> t + 1, bad |-> Judge(Doc[t + 1]),
               valid |-> ValidCall(Doc[t + 1].case.s, Doc[t + 1].case.call)]))
         /\ UNCHANGED vars
=============================================================================
