---------------------------- MODULE TraceGLLife ----------------------------
(***************************************************************************)
(* Validates the images of real OpenGL renderers against GL and GLLife:    *)
(* every rendering shows the scene that the renderer holds.                *)
(* Doc.worlds[w].scenes[k] is a scene (as in Scene3D, with icp, bgcolor),  *)
(* Doc.worlds[w].cameras[c] a camera.                                      *)
(***************************************************************************)
EXTENDS GL, IOUtils, Json

Doc == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Doc.traces
VARIABLES t, i, st, hist, bad, drawn
L == INSTANCE GLLife WITH Depth <- 0, Scenes <- {}, Cameras <- {}, Renderers <- {1, 2}
vars == <<t, i, st, hist, bad, drawn>>

C(clause, b) == IF b THEN <<>> ELSE <<[clause |-> clause, at |-> i + 1]>>
\* the scene held
Held(w, s, cam) ==
    LET sc == w.scenes IN
    [m |-> sc[s.mesh].m, x |-> sc[s.mesh].x, uv |-> sc[s.mesh].uv, facesuv |-> sc[s.mesh].facesuv,
     tex |-> sc[s.texture].tex, TW |-> sc[s.texture].TW, TH |-> sc[s.texture].TH, C |-> 3,
     light |-> sc[s.light].light, ambient |-> sc[s.light].ambient, bgcolor |-> sc[s.back].bgcolor, cam |-> cam]

\* colours are stored, and places in textures computed, with 8 bits
Byte == "5/255"
Fragments(w, s, r) ==
    LET q == Held(w, s, w.cameras[r.op.k])
        p == Projected(q)  n == Normals(q)  icp == w.scenes[s.pixels].icp
    IN  TLCEval([j \in DOMAIN r.pix |-> Fragment(q, n, p, icp, r.pix[j])])
Judge(w, s, r, fr) ==
    IF r.status # "ok" THEN C("status of " \o r.op.op \o ": " \o r.status, FALSE)
    ELSE IF r.op.op # "render" THEN <<>>
    ELSE LET cam == w.cameras[r.op.k]
             wrong == {j \in DOMAIN fr : fr[j].kind # "open" /\ \E c \in 1..3 :
                          LET d == RAbs(RSub(RDiv(r.img[j][c], 255), fr[j].color[c])) IN RLt(Byte, d)}
         IN  C("size of the image", r.size = <<cam.Hn, cam.Wn, 3>>)
             \o (IF wrong = {} THEN <<>>
                 ELSE LET j == CHOOSE a \in wrong : \A b \in wrong : a <= b IN
                      <<[clause |-> "image", at |-> i + 1, pixel |-> r.pix[j], got |-> r.img[j], kind |-> fr[j].kind,
                         expected |-> [c \in 1..3 |-> RFloat(RMul(255, fr[j].color[c]))]]>>)

TInit == t \in 1..Len(Traces) /\ i = 0 /\ bad = <<>> /\ drawn = 0 /\ L!Init
TStep ==
    LET tr == Traces[t]  w == Doc.worlds[tr.world] IN
    /\ i < Len(tr.steps)
    /\ LET r == tr.steps[i + 1]  s == L!Apply(st, r.op)
           h == s[r.op.r]
           fr == IF r.status = "ok" /\ r.op.op = "render" THEN Fragments(w, h, r) ELSE <<>> IN
          /\ L!Allowed(st, r.op)
          /\ st' = s /\ hist' = <<>>
          /\ bad' = bad \o Judge(w, h, r, fr)
          /\ drawn' = drawn + Cardinality({j \in DOMAIN fr : fr[j].kind = "face"})
    /\ i' = i + 1 /\ t' = t
TEnd ==
    /\ i = Len(Traces[t].steps)
    /\ PrintT("VERDICT" \o ToJson([t |-> t, bad |-> bad, drawn |-> drawn]))
    /\ i' = i + 1 /\ UNCHANGED <<t, st, hist, bad, drawn>>
TNext == TStep \/ TEnd
=============================================================================
