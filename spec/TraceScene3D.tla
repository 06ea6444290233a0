---------------------------- MODULE TraceScene3D ----------------------------
(***************************************************************************)
(* Validates recorded renderings of real 3D scenes, and their gradients,   *)
(* against Scene3D.  tr.op: "render", "depth", "deferred"; tr.q the scene; *)
(* tr.rec what the code returned; tr.dirs, tr.adj: directions and adjoint  *)
(* when a backward pass was recorded (tr.rec.grads).                       *)
(***************************************************************************)
EXTENDS Scene3D, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, st
vars == <<t, st>>
Has(r, f) == f \in DOMAIN r
None == <<>>
NG == 6
Groups == <<"x", "colors", "light", "ambient", "tex", "uv">>

Move1(v, d, g) == TLCEval([i \in 1..Len(v) |-> RDir(v[i], d[i], g, NG)])
Move(v, d, g) == TLCEval([i \in 1..Len(v) |-> Move1(v[i], d[i], g)])
Moving(tr) ==
    IF ~Has(tr, "dirs") THEN tr.q
    ELSE [tr.q EXCEPT !.x = Move(@, tr.dirs.x, 1), !.colors = Move(@, tr.dirs.colors, 2), !.light = Move1(@, tr.dirs.light, 3),
                      !.ambient = RDir(@, tr.dirs.ambient[1], 4, NG), !.tex = Move(@, tr.dirs.tex, 5), !.uv = Move(@, tr.dirs.uv, 6)]
Scene(tr) == LET q == Moving(tr) IN
    CASE tr.op = "render" -> ColorScene(q) [] tr.op = "depth" -> DepthScene(q) [] tr.op = "deferred" -> DeferredScene(q)

Bad(clause, i, exp, got) == [clause |-> clause, at |-> i, expected |-> RFloat(exp), got |-> RFloat(got)]
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> 0]>>

Img(tr, S, s) ==
    LET b == {i \in Px(S) \ s.amb : RFirstFar(tr.rec.img[i], s.img[i], tr.tol) # 0}
    IN  IF b = {} THEN None
        ELSE LET i == CHOOSE i \in b : \A j \in b : i <= j
                 c == RFirstFar(tr.rec.img[i], s.img[i], tr.tol)
             IN  IF c < 0 THEN <<Bad("number of channels", i, 0, 0)>>
                 ELSE <<[Bad("image", i, s.img[i][c], tr.rec.img[i][c]) EXCEPT !.at = <<i, c>>]>>
Z(tr, S, s) ==
    IF ~Has(tr.rec, "z") THEN None
    ELSE LET b == {i \in Px(S) \ s.amb : ~RClose(tr.rec.z[i], s.z[i], tr.tol)}
         IN  IF b = {} THEN None ELSE LET i == CHOOSE i \in b : TRUE IN <<Bad("depth buffer", i, s.z[i], tr.rec.z[i])>>

\* the light is at its clamping point for some vertex: the gradient is not determined
Kink(tr) == /\ tr.op = "render" /\ tr.q.light # <<>>
            /\ LET n == Normals(tr.q) IN \E v \in 1..tr.q.m.nv : n[v] # <<"0", "0", "0">> /\ RClose(InnerP(n[v], tr.q.light), "0", "1/1000000000")
Compared(tr, s) == Has(tr, "dirs") /\ s.amb = {} /\ s.tie = {} /\ s.crease = {} /\ ~Kink(tr)
Flat(x) == IF x = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, y : acc \o y, <<>>, x)
Grad(tr, S, s) ==
    IF ~Compared(tr, s) THEN None
    ELSE LET want(g) == RSum([i \in Px(S) |-> RDot(tr.adj[i], [c \in 1..S.C |-> RTan(s.img[i][c], g)])])
             dir(g) == IF g \in {3, 4} THEN tr.dirs[Groups[g]] ELSE Flat(tr.dirs[Groups[g]])
             one(g) == IF ~Has(tr.rec.grads, Groups[g]) THEN None
                       ELSE LET r == tr.rec.grads[Groups[g]] IN
                            IF Len(r) # Len(dir(g)) THEN C("shape of the gradient of " \o Groups[g], FALSE)
                            ELSE IF \E i \in 1..Len(r) : ~RFin(r[i]) THEN C("not finite: the gradient of " \o Groups[g], FALSE)
                            ELSE LET e == want(g)  h == RDot(dir(g), r) IN
                                 IF RClose(h, e, tr.gtol) THEN None ELSE <<Bad("gradient of " \o Groups[g], g, e, h)>>
         IN  one(1) \o one(2) \o one(3) \o one(4) \o one(5) \o one(6)

Compare(tr, S, s) ==
    Img(tr, S, s) \o Z(tr, S, s) \o Grad(tr, S, s)
    \o C("the mesh, camera, background or adjoint changed", tr.kept)
    \o (IF tr.op = "deferred" THEN C("attributes returned", Range(tr.rec.keys) = Range(tr.q.requested) \cap Available(tr.q) /\ Len(tr.rec.keys) = Len(tr.q.channels)) ELSE None)

Verdict(tr, bad, s) ==
    PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad, px |-> Len(tr.q.pix), grad |-> Compared(tr, s), open |-> Cardinality(s.amb),
             drawn |-> Cardinality({i \in DOMAIN s.own : s.own[i] > 0}), edges |-> IF Has(s, "edges") THEN Len(s.edges) ELSE 0]))
Nothing == [amb |-> {1}, own |-> <<>>, tie |-> {}, crease |-> {}]

Init == t \in 1..Len(Traces) /\ st = [pc |-> "init"]
Next ==
    LET tr == Traces[t] IN
    /\ t' = t
    /\ \/ st.pc = "init" /\ tr.status = "ok" /\ LET S == Scene(tr) IN st' = Cleared(S) @@ [S |-> S]
       \/ st.pc = "init" /\ tr.status # "ok" /\ Verdict(tr, C("status " \o tr.status, FALSE), Nothing) /\ st' = [pc |-> "over"]
       \/ st.pc \in {"tri", "err", "edge"} /\ st' = RStep(st.S, st) @@ [S |-> st.S]
       \/ st.pc = "done" /\ Verdict(tr, Compare(tr, st.S, st), st) /\ st' = [pc |-> "over"]

DesignInv == st.pc \in {"tri", "err", "edge", "done"} => BackgroundKept(st.S, st)
DesignStep == [][st.pc \in {"tri", "err", "edge"} => DepthMonotone(st, st')]_vars
=============================================================================
