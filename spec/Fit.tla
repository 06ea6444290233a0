-------------------------------- MODULE Fit ---------------------------------
(***************************************************************************)
(* Fitting a mesh to images by gradient descent with inertia.              *)
(*                                                                         *)
(* A state p of a fitter holds parameters and their velocities:            *)
(*   v, sv     vertices           q, sq   one quaternion per frame         *)
(*   t, st     translations       l, sl   directional light                *)
(*   a, sa     ambient light      c, sc   colour of the mesh               *)
(* (a fitter of depth images has no light nor colour: l = a = c = <<>>)    *)
(* and its configuration f:                                                *)
(*   kind      "depth", "rgb" or "multi"                                   *)
(*   m, ref    mesh and reference vertices; w weight of the rigid energy   *)
(*   cam, bg, scale, maxdepth, coef (weight of the data term)              *)
(*   inertia, damping, fv, mv, fq, mq, ft, mt   factors and largest steps  *)
(*   fl, fc    factors for lights and colour; lights, color: updated?      *)
(*   imgs      per frame, per pixel, the channels of the image             *)
(*                                                                         *)
(* Gradients are tangents: parameter n of the frame is direction n of NP.  *)
(***************************************************************************)
EXTENDS Scene3D, Pose

NV(p) == Len(p.v)
NP(f, p) == 3 * NV(p) + 7 + (IF f.kind = "depth" THEN 0 ELSE 7)
Dirs(p) == LET n == 3 * NV(p) IN [q |-> n, t |-> n + 4, l |-> n + 7, a |-> n + 11, c |-> n + 11]
Var(x, n, np) == TLCEval([k \in DOMAIN x |-> RDir(x[k], 1, n + k, np)])

\* the frame's scene, its parameters being variables
FrameScene(f, p, i) ==
    LET np == NP(f, p)  d == Dirs(p)
        v == TLCEval([k \in 1..NV(p) |-> Var(p.v[k], 3 * (k - 1), np)])
        x == Posed(Var(p.q[i], d.q, np), Var(p.t[i], d.t, np), v)
        common == [m |-> f.m, x |-> x, cam |-> f.cam, textured |-> FALSE, sigma |-> "1", culling |-> TRUE, persp |-> FALSE, intcenter |-> TRUE,
                   pix |-> f.pix, bg |-> f.bg, scale |-> f.scale]
    IN  IF f.kind = "depth" THEN common @@ [C |-> 1]
        ELSE LET c == Var(p.c, d.c, np) IN
             common @@ [C |-> 3, light |-> Var(p.l, d.l, np), ambient |-> RDir(p.a[1], 1, d.l + 4, np), colors |-> [k \in 1..NV(p) |-> c]]
\* depths are clipped: no gradient outside of the range
Seen(f, v) == IF f.kind # "depth" THEN v ELSE IF RLt(v, "0") THEN "0" ELSE IF RLt(f.maxdepth, v) THEN f.maxdepth ELSE v

RECURSIVE Rendered(_, _)
Rendered(S, s) == IF s.pc = "done" THEN s ELSE Rendered(S, TLCEval(RStep(S, s)))

\* the data term of a frame: [img, diff, e, open] with e carrying the gradient
Frame(f, p, i) ==
    LET q == FrameScene(f, p, i)
        S == TLCEval(IF f.kind = "depth" THEN DepthScene(q) ELSE ColorScene(q))
        s == Rendered(S, Cleared(S))
        img == TLCEval([k \in DOMAIN f.pix |-> [c \in DOMAIN s.img[k] |-> Seen(f, s.img[k][c])]])
        diff == TLCEval([k \in DOMAIN f.pix |-> RSum([c \in DOMAIN img[k] |-> RSq(RSub(img[k][c], f.imgs[i][k][c]))])])
        kink == f.kind # "depth" /\ LET n == Normals(q) IN \E v \in 1..NV(p) : RClose(InnerP(n[v], q.light), "0", "1/1000000000")
    IN  [img |-> img, diff |-> diff, e |-> RMul(f.coef, RSum(diff)), open |-> s.amb # {} \/ s.tie # {} \/ s.crease # {} \/ kink]

(* One step.  The vertices are centred first; gradients are those of the   *)
(* energy at the centred vertices; the gradient of the data term with      *)
(* respect to the vertices is centred too, in the first Centring steps of  *)
(* a fitting to several images.                                            *)
Clamp(x, m) == IF RLt(m, x) THEN m ELSE IF RLt(x, RNeg(m)) THEN RNeg(m) ELSE x
Speed(f, s, g, a, m) == RMul(RSub("1", f.damping), RAdd(RMul(s, f.inertia), RMul(RSub("1", f.inertia), Clamp(RNeg(RMul(g, a)), m))))
Free == "1000000000000000000000000000000"
Speeds(f, s, g, a, m) == TLCEval([k \in DOMAIN s |-> RVal(Speed(f, s[k], g[k], a, m))])
Moved(x, s) == TLCEval([k \in DOMAIN x |-> RAdd(x[k], s[k])])
Moved2(x, s) == TLCEval([i \in DOMAIN x |-> Moved(x[i], s[i])])

Centring == 500
Step(f, p0, done) ==
    LET p == [p0 EXCEPT !.v = Centred(@)]
        d == Dirs(p)
        fr == TLCEval([i \in DOMAIN p.q |-> Frame(f, p, i)])
        tan(i, n) == RTan(fr[i].e, n)
        all(n) == RSum([i \in DOMAIN p.q |-> tan(i, n)])
        disp == [k \in 1..NV(p) |-> Sub3(p.v[k], f.ref[k])]
        rg == RigidGradient(f.m, f.w, disp)
        free == [k \in 1..NV(p) |-> [c \in 1..3 |-> all(3 * (k - 1) + c)]]
        gv == IF f.kind # "multi" \/ done < Centring THEN Centred(free) ELSE free
        sv == TLCEval([k \in 1..NV(p) |-> Speeds(f, p.sv[k], Add3(gv[k], rg[k]), f.fv, f.mv)])
        sq == TLCEval([i \in DOMAIN p.q |-> Speeds(f, p.sq[i], [k \in 1..4 |-> tan(i, d.q + k)], f.fq, f.mq)])
        st == TLCEval([i \in DOMAIN p.q |-> Speeds(f, p.st[i], [k \in 1..3 |-> tan(i, d.t + k)], f.ft, f.mt)])
        sl == IF f.lights THEN Speeds(f, p.sl, [k \in 1..3 |-> all(d.l + k)], f.fl, Free) ELSE p.sl
        sa == IF f.lights THEN Speeds(f, p.sa, <<all(d.l + 4)>>, f.fl, Free) ELSE p.sa
        sc == IF f.color THEN Speeds(f, p.sc, [k \in 1..3 |-> all(d.c + k)], f.fc, Free) ELSE p.sc
    IN  [p |-> [v |-> Moved2(p.v, sv), sv |-> sv, q |-> TLCEval([i \in DOMAIN p.q |-> Normed(Moved(p.q[i], sq[i]))]), sq |-> sq,
                t |-> Moved2(p.t, st), st |-> st,
                l |-> IF f.lights THEN Moved(p.l, sl) ELSE p.l, sl |-> sl, a |-> IF f.lights THEN Moved(p.a, sa) ELSE p.a, sa |-> sa,
                c |-> IF f.color THEN Moved(p.c, sc) ELSE p.c, sc |-> sc],
         energy |-> RAdd(RVal(RSum([i \in DOMAIN p.q |-> fr[i].e])), RigidEnergy(f.m, f.w, disp)),
         frames |-> fr, open |-> \E i \in DOMAIN p.q : fr[i].open]
=============================================================================
