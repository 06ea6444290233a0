---------------------------- MODULE TraceConvert ----------------------------
(***************************************************************************)
(* Validates recorded conversions against Convert: tr.op "from" (an        *)
(* external mesh tr.e was read as tr.m) or "to" (tr.m written as tr.e).    *)
(***************************************************************************)
EXTENDS Convert, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, pc
vars == <<t, pc>>
None == <<>>
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> 0]>>
Tol == "1/1000000000"
Near(a, b, tol) == RFirstFar(a, b, tol) = 0
Ok(s, n) == \A k \in DOMAIN s : Len(s[k]) = 3 /\ \A c \in 1..3 : s[k][c] >= 0 /\ s[k][c] < n

From(tr) ==
    LET e == tr.e  can == CanComeFrom(e) IN
    C("refused or accepted", (tr.status = "ok") = can)
    \o (IF tr.status # "ok" \/ ~can THEN None ELSE
        LET m == tr.m
            shape == Len(m.f) = Len(e.f) /\ Ok(m.f, Len(m.v))
            tex == e.kind = "texture"
            uvshape == tex => Len(m.fuv) = Len(e.f) /\ Ok(m.fuv, Len(m.uv))
        IN  C("number of faces, or their vertices", shape /\ uvshape)
            \o C("orientation", ~m.cw)
            \o C("vertices at one place are one", Cardinality({m.v[i] : i \in DOMAIN m.v}) = Len(m.v))
            \o (IF ~(shape /\ uvshape) THEN None ELSE
                  C("positions of the corners", \A k \in DOMAIN e.f : \A n \in 1..3 : At(m.v, m.f[k][n]) = At(e.v, e.f[k][n].v))
                  \o C("texture coordinates of the corners", tex => \A k \in DOMAIN e.f : \A n \in 1..3 :
                          Near(At(m.uv, m.fuv[k][n]), ToPixels(At(e.uv, e.f[k][n].t), e.tex), tr.tol))
                  \o C("texture", IF tex THEN Len(m.tex) = Len(e.tex) /\ \A y \in DOMAIN e.tex : Len(m.tex[y]) = Len(e.tex[y]) /\ \A x \in DOMAIN e.tex[y] :
                                    LET c == e.tex[y][x] IN
                                    Near(m.tex[y][x], [k \in 1..Shown(c) |-> RDiv(c[k], 255)], Tol)
                                  ELSE m.tex = None)
                  \o C("colours", IF tex THEN m.colors = None ELSE Len(m.colors) = Len(m.v) /\ \A k \in DOMAIN e.f : \A n \in 1..3 :
                          Near(At(m.colors, m.f[k][n]), LET c == At(e.colors, e.f[k][n].v) IN [x \in 1..3 |-> RDiv(c[x], 255)], Tol)))
            \o C("an argument changed", tr.kept))

To(tr) ==
    LET m == tr.m  can == CanBecome(m) IN
    C("refused or accepted", (tr.status = "ok") = can)
    \o (IF tr.status # "ok" \/ ~can THEN None ELSE
        LET e == tr.e
            shape == Len(m.f) = Len(e.f) /\ \A k \in DOMAIN e.f : \A n \in 1..3 : e.f[k][n].v < Len(e.v) /\ e.f[k][n].t < Len(e.uv)
            same(c, p, q) == At(e.v, c.v) = At(m.v, p) /\ Near(At(e.uv, c.t), FromPixels(At(m.uv, q), m.tex), tr.tol)
        IN  C("number of faces, or their vertices", shape)
            \o C("corners of the faces", shape => \A k \in DOMAIN e.f :
                  LET f == Turned(m.f[k], m.cw)  g == Turned(m.fuv[k], m.cw) IN
                  \E r \in 0..2 : \A n \in 1..3 : LET j == ((n - 1 + r) % 3) + 1 IN same(e.f[k][n], f[j], g[j]))
            \o C("texture", Len(e.tex) = Len(m.tex) /\ \A y \in DOMAIN m.tex : Len(e.tex[y]) = Len(m.tex[y]) /\ \A x \in DOMAIN m.tex[y] :
                  Len(e.tex[y][x]) = Len(m.tex[y][x]) /\ \A c \in DOMAIN m.tex[y][x] :
                    LET w == RMul(255, m.tex[y][x][c])
                        s == RMax("0", RMin("255", w))
                        d == RAbs(RSub(e.tex[y][x][c], s))
                    IN  RLt(d, "1") /\ (RClose(s, RFloor(RAdd(s, Half)), "1/1000000000000") => RLt(d, "1/1000")))
            \o C("an argument changed", tr.kept))

Judge(tr) == IF tr.op = "from" THEN From(tr) ELSE To(tr)

Init == t \in 1..Len(Traces) /\ pc = "init"
Next == /\ pc = "init" /\ pc' = "over" /\ t' = t
        /\ LET tr == Traces[t] IN PrintT("VERDICT" \o ToJson([t |-> t, bad |-> Judge(tr), faces |-> IF tr.op = "from" THEN Len(tr.e.f) ELSE Len(tr.m.f)]))
=============================================================================
