--------------------------- MODULE TraceMeshLife ----------------------------
(***************************************************************************)
(* Validates recorded histories of real meshes against MeshLife.           *)
(* Doc.tables[world] tells what fresh meshes give: face_normals,           *)
(* vertex_normals, volume (by position), silhouette (by view), boundary,   *)
(* subdivide (by position and colours), as identifications of the arrays;  *)
(* adj[pos][a], the gradient one backward pass leaves.                     *)
(***************************************************************************)
EXTENDS MeshLife, Rat, IOUtils

Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Doc.traces
VARIABLES t, i, bad
TInit == t \in 1..Len(Traces) /\ i = 0 /\ bad = <<>> /\ Init

C(clause, b) == IF b THEN <<>> ELSE <<[clause |-> clause, at |-> i + 1]>>
SumV(a, b) == [k \in 1..Len(a) |-> RAdd(a[k], b[k])]
RECURSIVE Total(_, _, _)
Total(tab, gs, n) == IF gs = <<>> THEN [k \in 1..n |-> "0"] ELSE SumV(Total(tab, Tail(gs), n), tab.adj[gs[1][1]][gs[1][2]])

Judge(tr, st, s, n) ==
    LET tab == Doc.tables[tr.world]  o == st.op
        e == CASE o.op \in {"face_normals", "vertex_normals", "volume"} -> tab[o.op][s.pos]
               [] o.op = "silhouette" -> tab.silhouette[o.k]
               [] o.op = "boundary" -> tab.boundary
               [] o.op = "subdivide" -> tab.subdivide[s.pos][s.col]
               [] OTHER -> ""
    IN  C("status of " \o o.op, (st.status = "ok") = (e # "refused"))
        \o (IF st.status # "ok" \/ e = "refused" THEN <<>> ELSE
              C(o.op \o " is not that of the current vertices", st.out = e)
              \o C("gradients are not the sum of the contributions since the vertices were set", ~st.hasg \/ RFirstFar(st.g, Total(tab, n.grads, Len(st.g)), Doc.tol) = 0)
              \o C("the vertices or colours are not the ones that were set", st.vertices = tab.vertices[n.pos] /\ st.colors = tab.colors[n.col])
              \o C("an array returned before, or given, changed", st.kept))

TStep ==
    LET tr == Traces[t] IN
    /\ i < Len(tr.steps)
    /\ LET st == tr.steps[i + 1]  n == Apply(State, st.op) IN
          /\ Allowed(State, st.op)
          /\ pos' = n.pos /\ col' = n.col /\ ready' = n.ready /\ grads' = n.grads /\ cache' = n.cache /\ hist' = Append(hist, st.op)
          /\ bad' = bad \o Judge(tr, st, State, n)
    /\ i' = i + 1 /\ t' = t
TEnd ==
    /\ i = Len(Traces[t].steps)
    /\ PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad, steps |-> i, contributions |-> Len(grads)]))
    /\ i' = i + 1 /\ UNCHANGED <<vars, t, bad>>
TNext == TStep \/ TEnd
=============================================================================
