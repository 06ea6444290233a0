---------------------------- MODULE TraceRaster -----------------------------
(***************************************************************************)
(* Validates recorded renderings (and gradients) of the real rasteriser    *)
(* against Raster: each trace holds a scene and what the code returned;    *)
(* the trace specification runs the pipeline of Raster on the scene, one   *)
(* state per action, and the last action compares.  Verdicts are total:    *)
(* one VERDICT line per trace, naming the failed clauses.                  *)
(*                                                                         *)
(* Gradients: the driver chooses a direction for each group of inputs      *)
(* (positions, colours, shade, uv, texture); the scene is evaluated on     *)
(* numbers moving in these directions, and the recorded gradients must     *)
(* give the same directional derivatives of the loss  <adjoint, output>.   *)
(***************************************************************************)
EXTENDS Raster, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, st
vars == <<t, st>>

Has(r, f) == f \in DOMAIN r
Groups == <<"ij", "colors", "shade", "uv", "tex">>
NG == 5

Move(v, d, g) == TLCEval([i \in 1..Len(v) |-> [c \in 1..Len(v[i]) |-> RDir(v[i][c], d[i][c], g, NG)]])
Move1(v, d, g) == TLCEval([i \in 1..Len(v) |-> RDir(v[i], d[i], g, NG)])

Scene(tr) ==
    IF ~Has(tr, "dirs") THEN tr.scene @@ [dev |-> ""]
    ELSE [tr.scene @@ [dev |-> ""] EXCEPT !.ij = Move(@, tr.dirs.ij, 1), !.colors = Move(@, tr.dirs.colors, 2),
                          !.shade = Move1(@, tr.dirs.shade, 3), !.uv = Move(@, tr.dirs.uv, 4),
                          !.tex = Move(@, tr.dirs.tex, 5)]

Init == t \in 1..Len(Traces) /\ st = [pc |-> "init"]

Flat(s) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, s)

Bad(clause, i, exp, got) == [clause |-> clause, at |-> i, expected |-> RFloat(exp), got |-> RFloat(got)]
None == <<>>

\* comparisons of the recorded output with the final state
Img(tr, S, s) ==
    IF ~Has(tr.rec, "img") THEN None
    ELSE LET b == {i \in Px(S) \ s.amb : RFirstFar(tr.rec.img[i], s.img[i], tr.tol) # 0}
         IN  IF b = {} THEN None
             ELSE LET i == CHOOSE i \in b : \A j \in b : i <= j
                      c == RFirstFar(tr.rec.img[i], s.img[i], tr.tol)
                  IN  IF c < 0 THEN <<Bad("image-shape", i, 0, 0)>>
                      ELSE <<Bad("image", i, s.img[i][c], tr.rec.img[i][c])>>
Z(tr, S, s) ==
    IF ~Has(tr.rec, "z") THEN None
    ELSE LET b == {i \in Px(S) \ s.amb : ~RClose(tr.rec.z[i], s.z[i], tr.tol)}
         IN  IF b = {} THEN None
             ELSE LET i == CHOOSE i \in b : \A j \in b : i <= j
                  IN  <<Bad("depth", i, s.z[i], tr.rec.z[i])>>
Err(tr, S, s) ==
    IF ~Has(tr.rec, "err") THEN None
    ELSE LET b == {i \in Px(S) \ s.amb : ~RClose(tr.rec.err[i], s.err[i], tr.tol)}
         IN  IF b = {} THEN None
             ELSE LET i == CHOOSE i \in b : \A j \in b : i <= j
                  IN  <<Bad("error-map", i, s.err[i], tr.rec.err[i])>>

\* words around the buffers given by the caller
Canary(tr) == IF Has(tr.rec, "canary") /\ ~tr.rec.canary
              THEN <<[clause |-> "written outside of the buffers", at |-> 0, expected |-> "intact", got |-> "overwritten"]>> ELSE None

\* directional derivative number g of the loss
Deriv(tr, S, s, g) ==
    IF S.errmode
    THEN RDot(tr.adj, [i \in Px(S) |-> RTan(s.err[i], g)])
    ELSE RSum([i \in Px(S) |-> RDot(tr.adj[i], [c \in 1..S.C |-> RTan(s.img[i][c], g)])])

Finite(tr) ==
    IF ~Has(tr, "dirs") THEN None
    ELSE LET one(g) == IF \E i \in 1..Len(tr.rec.grads[g]) : ~RFin(tr.rec.grads[g][i])
                       THEN <<[clause |-> "gradient-not-finite-" \o g, at |-> 0, expected |-> "a number", got |-> "nan"]>>
                       ELSE None
         IN  one("ij") \o one("colors") \o one("shade") \o one("uv") \o one("tex")

\* gradients are compared where the specification determines them
GradCompared(tr, s) == Has(tr, "dirs") /\ s.amb = {} /\ s.crease = {} /\ (s.tie = {} \/ Has(tr, "ties"))

Grad(tr, S, s) ==
    IF ~Has(tr, "dirs") \/ Finite(tr) # None THEN None
    ELSE IF ~GradCompared(tr, s) THEN None
    ELSE LET dir(g) == IF Groups[g] = "shade" THEN tr.dirs.shade ELSE Flat(tr.dirs[Groups[g]])
             got(g) == RDot(dir(g), tr.rec.grads[Groups[g]])
             one(g) == LET e == Deriv(tr, S, s, g)  h == got(g)
                       IN  IF RClose(h, e, tr.gtol) THEN None
                           ELSE <<Bad("gradient-" \o Groups[g], g, e, h)>>
         IN  one(1) \o one(2) \o one(3) \o one(4) \o one(5)

Compare(tr, S, s) ==
    IF tr.rec.status # "ok" THEN <<[clause |-> "status", at |-> 0, expected |-> "ok", got |-> tr.rec.status]>>
    ELSE Canary(tr) \o Img(tr, S, s) \o Z(tr, S, s) \o Err(tr, S, s) \o Finite(tr) \o Grad(tr, S, s)

Verdict(tr, S, s, bad) ==
    PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad,
             open |-> Cardinality(s.amb), px |-> Len(S.pix), grad |-> GradCompared(tr, s),
             drawn |-> Cardinality({i \in Px(S) : s.own[i] > 0}), edges |-> Len(s.edges)]))

OnlyGrad(bad) == \A i \in 1..Len(bad) : bad[i].clause \in {"gradient-" \o Groups[g] : g \in 1..NG}

Next ==
    LET tr == Traces[t]  S == st.S
    IN  /\ t' = t
        /\ \/ /\ st.pc = "init"
              /\ LET SS == Scene(tr) IN st' = Cleared(SS) @@ [S |-> SS, first |-> None]
           \/ /\ st.pc \in {"tri", "err", "edge"}
              /\ st' = RStep(S, st) @@ [S |-> S, first |-> st.first]
           \/ /\ st.pc = "done" /\ S.dev = ""
              /\ LET bad == Compare(tr, S, st)
                     kf == IF S.errmode THEN "KF1" ELSE "KF2"
                 IN  IF bad # None /\ OnlyGrad(bad) /\ (S.errmode \/ Has(tr, "ties"))
                     \* is it the known deviation?
                     THEN LET SS == [S EXCEPT !.dev = kf] IN st' = Cleared(SS) @@ [S |-> SS, first |-> bad]
                     ELSE Verdict(tr, S, st, bad) /\ st' = [pc |-> "over"]
           \/ /\ st.pc = "done" /\ S.dev # ""
              /\ Verdict(tr, S, st, IF Grad(tr, S, st) = None THEN <<[st.first[1] EXCEPT !.clause = "known:" \o S.dev]>> ELSE st.first)
              /\ st' = [pc |-> "over"]

\* the design properties, evaluated at every state of every recorded rendering
DesignInv == st.pc \in {"tri", "err", "edge", "done"} /\ st.S.dev = "" => BackgroundKept(st.S, st)
DesignStep == [][st.pc \in {"tri", "err", "edge"} /\ st.S.dev = "" /\ st'.pc \in {"tri", "err", "edge", "done"} => DepthMonotone(st, st')]_vars
=============================================================================
