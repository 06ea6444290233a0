--------------------------- MODULE TraceTapeLife ----------------------------
(***************************************************************************)
(* Validates recorded histories of scenes of the PyTorch front end against *)
(* TapeLife.  Doc.tables[world]: what a scene that is rendered only once   *)
(* gives: out[kind][view][pose][light], identifications of the images;     *)
(* grad[kind][view][pose][light][adjoint] = [x, c, l], its gradients.      *)
(* A step records all the gradients there are then: x of every pose, l of  *)
(* every light, c of the colours.                                          *)
(***************************************************************************)
EXTENDS TapeLife, Rat, IOUtils

Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Doc.traces
VARIABLES t, i, bad
TInit == t \in 1..Len(Traces) /\ i = 0 /\ bad = <<>> /\ Init

C(clause, b) == IF b THEN <<>> ELSE <<[clause |-> clause, at |-> i + 1]>>
Out(tab, l) == tab.out[l.kind][l.view][l.pose][l.light]
Gradient(tab, part) == LET l == part.tape IN tab.grad[l.kind][l.view][l.pose][l.light][part.adj]
RECURSIVE Total(_, _, _, _)
Total(tab, as, g, zero) == IF as = <<>> THEN zero ELSE LET r == Total(tab, Tail(as), g, zero)  x == Gradient(tab, as[1])[g] IN [k \in DOMAIN r |-> RAdd(r[k], x[k])]
Zero(x) == [k \in DOMAIN x |-> "0"]
Right(tab, got, as, g) == RFirstFar(got, Total(tab, as, g, Zero(got)), Doc.tol) = 0

Judge(tr, st, s, n) ==
    LET tab == Doc.tables[tr.world]  o == st.op IN
    C("status of " \o o.op, st.status = "ok")
    \o (IF st.status # "ok" THEN <<>> ELSE
          (IF o.op \in Kinds THEN C(o.op \o " is not that of the current scene", st.out = Out(tab, n.tapes[Len(n.tapes)])) ELSE <<>>)
          \o C("gradients of the vertices are not the sum of those of their renderings",
               \A k \in DOMAIN st.x : Right(tab, st.x[k], SelectSeq(n.acc, LAMBDA q : q.tape.pose = k), "x"))
          \o C("gradients of the lights are not the sum of those of their renderings",
               \A k \in DOMAIN st.l : Right(tab, st.l[k], SelectSeq(n.acc, LAMBDA q : q.tape.light = k), "l"))
          \o C("gradients of the colours are not the sum of those of the renderings", Right(tab, st.c, n.acc, "c"))
          \o C("an array returned before, or given, changed", st.kept))

TStep ==
    LET tr == Traces[t] IN
    /\ i < Len(tr.steps)
    /\ LET st == tr.steps[i + 1]  n == Apply(State, st.op) IN
          /\ Allowed(State, st.op)
          /\ Become(n, st.op)
          /\ bad' = bad \o Judge(tr, st, State, n)
    /\ i' = i + 1 /\ t' = t
TEnd ==
    /\ i = Len(Traces[t].steps)
    /\ PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad, steps |-> i, contributions |-> Len(acc)]))
    /\ i' = i + 1 /\ UNCHANGED <<vars, t, bad>>
TNext == TStep \/ TEnd
=============================================================================
