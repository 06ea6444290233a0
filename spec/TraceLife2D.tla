---------------------------- MODULE TraceLife2D -----------------------------
(***************************************************************************)
(* Validates recorded histories of the real 2.5D scenes against Life2D.    *)
(* table[look][kind][sigma] (of the world of the trace) describes what a fresh scene gives:               *)
(*   out   identification of its rendering (hash of the returned arrays)   *)
(*   adj[a+1]  the projections of the gradient that adjoint a leaves       *)
(* tr.steps: op, status, out, g (projections of the gradient arrays), and  *)
(* the flags inputs (the scene's inputs are as they were), args (the       *)
(* caller's arrays are), kept (the arrays returned before are), loss.      *)
(***************************************************************************)
EXTENDS Life2D, Rat, IOUtils

Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Doc.traces

VARIABLES t, i, bad
TInit == t \in 1..Len(Traces) /\ i = 0 /\ bad = <<>> /\ Init

Entry(tr, l, kind, sg) == Doc.tables[tr.world][l][kind][sg]
Zero(n) == [k \in 1..n |-> "0"]
SumV(a, b) == [k \in 1..Len(a) |-> RAdd(a[k], b[k])]
RECURSIVE Total(_, _, _)
Total(tr, gs, n) == IF gs = <<>> THEN Zero(n)
                    ELSE SumV(Total(tr, Tail(gs), n), Entry(tr, gs[1][4], gs[1][1], gs[1][2]).adj[gs[1][3] + 1])

C(clause, b) == IF b THEN <<>> ELSE <<[clause |-> clause, at |-> i + 1]>>

Judge(tr, st, s, n) ==  \* step st led to the model state n from s
    IF Refused(s, st.op)
    THEN C("a backward pass that does not match the last rendering must be refused", st.status # "ok")
         \o C("refused, but the gradients changed", \A k \in 1..Len(st.g) : RClose(st.g[k], Total(tr, n.grads, Len(st.g))[k], Doc.tol))
    ELSE
      C("status", st.status = "ok")
      \o (IF st.status # "ok" THEN <<>> ELSE
            (IF st.op.op \in {"render", "compare"}
             THEN C("the rendering depends on the history", st.out = Entry(tr, n.look, st.op.kind, st.op.sg).out /\
                       (st.op.op = "render" => st.err = Entry(tr, n.look, st.op.kind, st.op.sg).err)) ELSE <<>>)
            \o (IF st.op.op = "compare"
                THEN C("loss", RClose(st.loss, Entry(tr, n.look, st.op.kind, st.op.sg).loss, Doc.tol)) ELSE <<>>)
            \o C("gradients are not the sum of the contributions",
                 LET e == Total(tr, n.grads, Len(st.g)) IN RFirstFar(st.g, e, Doc.tol) = 0)
            \o C("inputs of the scene changed", st.inputs)
            \o C("an array of the caller changed", (st.op.op = "backward" /\ ~st.op.copies) \/ st.args)
            \o C("an array returned before changed", ~st.op.copies \/ st.kept))

TStep ==
    LET tr == Traces[t] IN
    /\ i < Len(tr.steps)
    /\ LET st == tr.steps[i + 1]
           n == Apply(State, st.op)
       IN  /\ Allowed(State, st.op)
           /\ Become(n, st.op)
           /\ bad' = bad \o Judge(tr, st, State, n)
    /\ i' = i + 1 /\ t' = t
TEnd ==
    LET tr == Traces[t] IN
    /\ i = Len(tr.steps)
    /\ PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad, steps |-> i, contributions |-> Len(grads)]))
    /\ i' = i + 1 /\ UNCHANGED <<vars, t, bad>>
TNext == TStep \/ TEnd
=============================================================================
