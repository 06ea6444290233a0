------------------------------- MODULE LBFGS --------------------------------
(***************************************************************************)
(* Limited memory quasi-Newton minimisation with steps of fixed size.      *)
(*   n    steps made           g   gradient at the last step               *)
(*   s    the last step (what was added to the variables)                  *)
(*   mem  pairs [s, y]: steps and the changes of the gradient along them   *)
(*   h    scale of the initial inverse Hessian                             *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

Plus(x, y) == TLCEval([k \in DOMAIN x |-> RAdd(x[k], y[k])])
Times(a, x) == TLCEval([k \in DOMAIN x |-> RMul(a, x[k])])
Minus(x, y) == Plus(x, Times("-1", y))

\* the inverse Hessian of the pairs, applied to q: the pairs are peeled off from the last one
RECURSIVE Inverse(_, _, _)
Inverse(mem, h, q) ==
    IF mem = <<>> THEN Times(h, q)
    ELSE LET l == mem[Len(mem)]
             ys == RDot(l.y, l.s)
             a == RDiv(RDot(l.s, q), ys)
             r == TLCEval(Inverse(SubSeq(mem, 1, Len(mem) - 1), h, TLCEval(Minus(q, Times(a, l.y)))))
         IN  Plus(r, Times(RSub(a, RDiv(RDot(l.y, r), ys)), l.s))

LStart == [n |-> 0, g |-> <<>>, s |-> <<>>, mem |-> <<>>, h |-> "1"]
\* a step of rate lr where the gradient is g
LStep(o, g, lr) ==
    IF o.n = 0
    THEN LET total == RSum([k \in DOMAIN g |-> RAbs(g[k])])
         IN  [o EXCEPT !.n = 1, !.g = g, !.s = Times(RNeg(RMul(lr, IF RLt("1", total) THEN RDiv("1", total) ELSE "1")), g)]
    ELSE LET y == Minus(g, o.g)
             ys == RDot(y, o.s)
             ok == RLt("1/10000000000", ys)
             mem == IF ok THEN Append(o.mem, [s |-> o.s, y |-> y]) ELSE o.mem
             h == IF ok THEN RDiv(ys, RDot(y, y)) ELSE o.h
         IN  [n |-> o.n + 1, g |-> g, mem |-> mem, h |-> h, s |-> TLCEval(Times(RNeg(lr), Inverse(mem, h, g)))]

(* ------------------------------ properties ------------------------------ *)
\* the inverse Hessian maps the last change of gradient to the last step
Secant(o) == o.mem = <<>> \/ LET l == o.mem[Len(o.mem)]  r == Inverse(o.mem, o.h, l.y) IN \A k \in DOMAIN r : RClose(r[k], l.s[k], "1/1000000000000000000000000000000")
\* steps go downhill
Downhill(o) == o.n = 0 \/ RSign(RDot(o.g, o.s)) < 0
=============================================================================
