----------------------------- MODULE TraceLBFGS -----------------------------
(***************************************************************************)
(* Validates recorded fittings by LBFGS of a depth image: the energy and   *)
(* images that a step returns are those of the parameters before it, and   *)
(* the parameters (vertices, quaternion, translation, all at once) move by *)
(* the step of LBFGS for the gradient of the energy.                       *)
(* tr.f the configuration (see Fit), tr.lr the rate, tr.start, tr.steps.   *)
(***************************************************************************)
EXTENDS TraceFit, LBFGS

VARIABLE o
Flat(x) == FoldLeft(LAMBDA acc, y : acc \o y, <<>>, x)
All(n) == Flat(n.v) \o n.q[1] \o n.t[1]

\* the energy, its gradient and the image, at the parameters n
At(f, n) ==
    LET fr == TLCEval(Frame(f, [n EXCEPT !.v = Centred(@)], 1))
        d == Dirs(n)
        disp == [k \in DOMAIN n.v |-> Sub3(n.v[k], f.ref[k])]
        gv == Centred([k \in DOMAIN n.v |-> [c \in 1..3 |-> RTan(fr.e, 3 * (k - 1) + c)]])
        rg == RigidGradient(f.m, f.w, disp)
    IN  [e |-> RAdd(RVal(fr.e), RigidEnergy(f.m, f.w, disp)), fr |-> fr,
         g |-> TLCEval(Flat([k \in DOMAIN n.v |-> Add3(gv[k], rg[k])]) \o [k \in 1..4 |-> RTan(fr.e, d.q + k)] \o [k \in 1..3 |-> RTan(fr.e, d.t + k)])]
\* nothing to go down
Flatland(g) == \A k \in DOMAIN g : RLt(RAbs(g[k]), "1/1000000")
Largest(x) == RMax("0", FoldLeft(LAMBDA a, y : RMax(a, RAbs(y)), "0", x))

JudgeL(f, before, s, r, n) ==
    Pixels("images returned", s.out, <<r.fr>>, f)
    \o (IF r.fr.open THEN None
        ELSE C("energy", RClose(s.energy, r.e, Tol))
             \o C("parameters", LET got == Minus(All(s.n), All(before))  size == Largest(n.s) IN
                                Len(got) = Len(n.s) /\ \A k \in DOMAIN got : RLe(RAbs(RSub(got[k], n.s[k])), RMul("1/100000", RAdd("1/1000000", size)))))

LInit == Init /\ o = LStart
LNext ==
    LET tr == Traces[t]  Over == 1000 IN
    /\ t' = t /\ i < Over
    /\ \/ tr.status # "ok" /\ i' = Over /\ UNCHANGED <<bad, p, o>> /\ Verdict(C("status " \o tr.status, FALSE))
       \/ tr.status = "ok" /\ i = 0 /\ p = None /\ p' = tr.start /\ bad' = Start(tr) /\ UNCHANGED <<i, o>>
       \/ /\ p # None /\ i < Len(tr.steps)
          /\ LET r == TLCEval(At(tr.f, p))  s == tr.steps[i + 1]  stop == r.fr.open \/ Flatland(r.g)
                 n == IF stop THEN o ELSE TLCEval(LStep(o, r.g, tr.lr))
             IN /\ o' = n
                /\ bad' = bad \o JudgeL(tr.f, p, s, IF stop THEN [r EXCEPT !.fr.open = TRUE] ELSE r, n)
                /\ p' = s.n
                /\ IF stop THEN i' = Over /\ Verdict(bad') ELSE i' = i + 1
       \/ p # None /\ i = Len(tr.steps) /\ i' = Over /\ UNCHANGED <<bad, p, o>> /\ Verdict(bad)
LInv == Secant(o) /\ Downhill(o)
=============================================================================
