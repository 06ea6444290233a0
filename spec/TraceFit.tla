------------------------------ MODULE TraceFit ------------------------------
(***************************************************************************)
(* Validates recorded fittings against Fit: tr.f the configuration,        *)
(* tr.start the parameters at the beginning, tr.done the steps made then   *)
(* without moving, tr.steps[i] = [n, energy,     *)
(* out]: the parameters after each step and what the step returned.  The   *)
(* velocities are the specification's own.  What follows a step whose      *)
(* gradient is not determined (see Fit, open) is not judged.               *)
(***************************************************************************)
EXTENDS Fit, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, p, bad
vars == <<t, i, p, bad>>
None == <<>>
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> i + 1]>>
Tol == "1/1000000"
\* equal at the scale of a change by s, for steps of factor a
Near0(got, want, s, a) == RLe(RAbs(RSub(got, want)), RMul(Tol, RAdd(a, RAbs(s))))
Same(got, want, s, a) == Len(got) = Len(want) /\ \A k \in DOMAIN want : Near0(got[k], want[k], s[k], a)
Same2(got, want, s, a) == Len(got) = Len(want) /\ \A k \in DOMAIN want : Same(got[k], want[k], s[k], a)

Pixels(name, got, fr, f) ==
    C(name, Len(got) = Len(fr) /\ \A k \in DOMAIN fr : fr[k].open \/
        (Len(got[k].img) = Len(f.pix) /\ \A x \in DOMAIN f.pix : RFirstFar(got[k].img[x], [c \in DOMAIN fr[k].img[x] |-> RVal(fr[k].img[x][c])], Tol) = 0
           /\ RFirstFar(got[k].diff, [y \in DOMAIN f.pix |-> RVal(fr[k].diff[y])], Tol) = 0))

Judge(f, o, s, r) ==
    LET n == s.n  e == r.p IN
    Pixels("images returned", s.out, r.frames, f)
    \o (IF r.open THEN None ELSE
          C("energy", RClose(s.energy, r.energy, Tol))
          \o C("vertices", Same2(n.v, e.v, e.sv, f.fv))
          \o C("rotation", Same2(n.q, e.q, e.sq, f.fq))
          \o C("translation", Same2(n.t, e.t, e.st, f.ft)))
    \o (IF ~f.lights THEN C("the lights changed", n.l = o.l /\ n.a = o.a)
        ELSE IF r.open THEN None ELSE C("directional light", Same(n.l, e.l, e.sl, f.fl)) \o C("ambient light", Same(n.a, e.a, e.sa, f.fl)))
    \o (IF ~f.color THEN C("the colour changed", n.c = o.c) ELSE IF r.open THEN None ELSE C("colour", Same(n.c, e.c, e.sc, f.fc)))

\* the fitter starts with the given vertices and pose, at rest, in front of a camera placed by the size of the object
Start(tr) ==
    LET f == tr.f
        qs(k) == LET m == QMatrix(Normed(tr.start.q[k])) IN \A a, b \in 1..3 : RClose(m[a][b], tr.rot[k][a][b], "1/1000000000000")
        mean == Mul3(RDiv("1", Len(f.ref)), Sum3(f.ref))
        var(c) == RDiv(RSum([k \in DOMAIN f.ref |-> RSq(RSub(f.ref[k][c], mean[c]))]), Len(f.ref))
        r == RSqrt(RMax(var(1), RMax(var(2), var(3))))
        centre == [c \in 1..3 |-> RSum(<<mean[c], RMul(tr.away[c], r), tr.shift[c]>>)]
    IN  C("initial vertices", tr.start.v = f.ref)
        \o C("initial rotation", Len(tr.start.q) = Len(tr.rot) /\ \A k \in DOMAIN tr.rot : qs(k))
        \o C("initial translation", tr.start.t = tr.trans)
        \o C("initial lights and colour", tr.start.l = tr.light /\ tr.start.a = tr.ambient /\ tr.start.c = tr.color)
        \o C("camera", \A k \in 1..3 : RClose(CamPoint(f.cam, centre)[k], "0", "1/1000000000"))
        \o C("focal length", LET g == tr.focal IN f.cam.int = <<<<g, "0", RDiv(f.cam.W, 2)>>, <<"0", g, RDiv(f.cam.H, 2)>>, <<"0", "0", "1">>>>)

Rest(x) == LET z(y) == [k \in DOMAIN y |-> "0"] IN
    x @@ [sv |-> [k \in DOMAIN x.v |-> z(x.v[k])], sq |-> [k \in DOMAIN x.q |-> z(x.q[k])], st |-> [k \in DOMAIN x.t |-> z(x.t[k])],
          sl |-> z(x.l), sa |-> z(x.a), sc |-> z(x.c)]
\* the recorded parameters with the velocities of the specification
Resumed(n, e) == n @@ [sv |-> e.sv, sq |-> e.sq, st |-> e.st, sl |-> e.sl, sa |-> e.sa, sc |-> e.sc]
Verdict(b) == PrintT("VERDICT" \o ToJson([t |-> t, bad |-> b, steps |-> i]))

Init == t \in 1..Len(Traces) /\ i = 0 /\ bad = None /\ p = None
Next ==
    LET tr == Traces[t]  Over == 1000 IN
    /\ t' = t /\ i < Over
    /\ \/ tr.status # "ok" /\ i' = Over /\ UNCHANGED <<bad, p>> /\ Verdict(C("status " \o tr.status, FALSE))
       \/ tr.status = "ok" /\ i = 0 /\ p = None /\ p' = Rest(tr.start) /\ bad' = Start(tr) /\ i' = i
       \/ /\ p # None /\ i < Len(tr.steps)
          /\ LET r == TLCEval(Step(tr.f, p, tr.done + i))  s == tr.steps[i + 1] IN
                /\ bad' = bad \o Judge(tr.f, p, s, r)
                /\ p' = Resumed(s.n, r.p)
                /\ IF r.open THEN i' = Over /\ Verdict(bad') ELSE i' = i + 1
       \/ p # None /\ i = Len(tr.steps) /\ i' = Over /\ UNCHANGED <<bad, p>> /\ Verdict(bad)
=============================================================================
