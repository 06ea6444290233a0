----------------------------- MODULE TraceTools -----------------------------
(***************************************************************************)
(* Validates the rotation and normalisation tools against Pose, and the    *)
(* gradient checking ones.  Traces are judged by tr.op.  A backward pass   *)
(* is compared, component by component, with the tangents of the           *)
(* specified forward operation in the direction of each input.             *)
(***************************************************************************)
EXTENDS Pose, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, pc
vars == <<t, pc>>
None == <<>>
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> 0]>>
Tol == "1/1000000000"
Near(a, b) == RFirstFar(a, b, Tol) = 0
Vals(x) == [k \in DOMAIN x |-> RVal(x[k])]
NearR(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN b : Near(a[i], Vals(b[i]))

Var(x, n, np) == TLCEval([k \in DOMAIN x |-> RDir(x[k], 1, n + k, np)])
\* the derivative in direction n of the product of the rows y with the adjoint
Slope(y, adj, n) == RSum([i \in DOMAIN y |-> RSum([k \in DOMAIN y[i] |-> RMul(adj[i][k], RTan(y[i][k], n))])])
Back(y, adj, from, len) == [k \in 1..len |-> Slope(y, adj, from + k)]

\* tr.q rotations, tr.v vectors, tr.out[i] the vectors turned by q[i]; tr.all the same in one call; tr.qb, tr.vb for adjoint tr.adj[i]
Rotate(tr) ==
    LET n == Len(tr.v)  np == 4 + 3 * n IN
    C("a vector turned by a unit quaternion", Len(tr.out) = Len(tr.q) /\ \A i \in DOMAIN tr.q : NearR(tr.out[i], [k \in DOMAIN tr.v |-> QRot(tr.q[i], tr.v[k])]))
    \o C("rotation matrix", \A i \in DOMAIN tr.q : NearR(tr.out[i], [k \in DOMAIN tr.v |-> Apply3(QMatrix(tr.q[i]), tr.v[k])]))
    \o C("lengths", \A i \in DOMAIN tr.q : \A k \in DOMAIN tr.v : RClose(InnerP(tr.out[i][k], tr.out[i][k]), InnerP(tr.v[k], tr.v[k]), "1/100000000"))
    \o C("several rotations at once", Len(tr.all) = Len(tr.q) /\ \A i \in DOMAIN tr.q : \A k \in DOMAIN tr.v : Near(tr.all[i][k], tr.out[i][k]))
    \o C("gradients of a rotation",
         \A i \in DOMAIN tr.q :
            LET q == Var(tr.q[i], 0, np)
                y == TLCEval([k \in DOMAIN tr.v |-> QRot(q, Var(tr.v[k], 3 * k + 1, np))])
            IN  Near(tr.qb[i], Back(y, tr.adj[i], 0, 4)) /\ \A k \in DOMAIN tr.v : Near(tr.vb[i][k], Back(y, tr.adj[i], 3 * k + 1, 3)))
    \o C("an argument changed", tr.kept)

\* poses: tr.q of any length, tr.out the vectors turned by the normalised quaternion, tr.qb its gradient
Posing(tr) ==
    LET y == Posed(Var(tr.q, 0, 4), <<"0", "0", "0">>, tr.v) IN
    C("a vector turned by the direction of a quaternion", NearR(tr.out, y))
    \o C("gradient of a pose", Near(tr.qb, Back(y, tr.adj, 0, 4)))
    \o C("a quaternion's length matters", NearR(tr.scaled, y) /\ \A k \in 1..4 : RClose(RMul(tr.sqb[k], tr.s), tr.qb[k], Tol))
    \o C("an argument changed", tr.kept)

\* tr.x rows, tr.out the rows normalised, tr.b its backward pass for adjoint tr.adj
Normalise(tr) ==
    LET n == Len(tr.x[1])
        y == TLCEval([i \in DOMAIN tr.x |-> IF RSign(RDot(tr.x[i], tr.x[i])) = 0 THEN tr.x[i] ELSE Normed(Var(tr.x[i], 0, n))])
    IN  C("normalised", NearR(tr.out, y))
        \o C("gradient of the normalisation", Len(tr.b) = Len(tr.x) /\ \A i \in DOMAIN tr.x : Near(tr.b[i], Back(<<y[i]>>, <<tr.adj[i]>>, 0, n)))
        \o C("an argument changed", tr.kept)

CrossBack(tr) ==
    LET y == TLCEval([i \in DOMAIN tr.u |-> Cross3(Var(tr.u[i], 0, 6), Var(tr.v[i], 3, 6))]) IN
    C("gradients of cross products", Len(tr.ub) = Len(tr.u) /\ Len(tr.vb) = Len(tr.u)
        /\ \A i \in DOMAIN tr.u : Near(tr.ub[i], Back(<<y[i]>>, <<tr.adj[i]>>, 0, 3)) /\ Near(tr.vb[i], Back(<<y[i]>>, <<tr.adj[i]>>, 3, 3)))
    \o C("an argument changed", tr.kept)

\* f(x)[r] = a[r] . x + (b[r] . x)^2: tr.jac the finite differences; verdicts of the check for it and for wrong ones
Differences(tr) ==
    LET n == Len(tr.x)
        x == Var(tr.x, 0, n)
        f == TLCEval([r \in DOMAIN tr.a |-> RAdd(RDot(tr.a[r], x), RSq(RDot(tr.b[r], x)))])
        J == TLCEval([r \in DOMAIN f |-> [k \in 1..n |-> RTan(f[r], k)]])
        good(j) == \A r \in DOMAIN J : \A k \in 1..n : RLt(RAbs(RSub(j[r][k], J[r][k])), RMul(tr.tol, "9/10"))
        wrong(j) == \E r \in DOMAIN J : \E k \in 1..n : RLt(RMul(tr.tol, "11/10"), RAbs(RSub(j[r][k], J[r][k])))
    IN  C("finite differences", tr.status = "ok" /\ Len(tr.jac) = Len(J) /\ \A r \in DOMAIN J : RFirstFar(tr.jac[r], J[r], "1/100000") = 0)
        \o C("a right derivative is refused", \A i \in DOMAIN tr.tries : good(tr.tries[i].j) => tr.tries[i].ok)
        \o C("a wrong derivative is accepted", \A i \in DOMAIN tr.tries : wrong(tr.tries[i].j) => ~tr.tries[i].ok)
        \o C("a function that changes from call to call must be refused", ~tr.moody)
        \o C("an argument changed", tr.kept)

Judge(tr) == CASE tr.op = "differences" -> Differences(tr)
               [] tr.status # "ok" -> C("status " \o tr.status, FALSE)
               [] tr.op = "rotate" -> Rotate(tr)
               [] tr.op = "pose" -> Posing(tr)
               [] tr.op = "normalise" -> Normalise(tr)
               [] tr.op = "cross" -> CrossBack(tr)
               [] OTHER -> C("unknown", FALSE)

Init == t \in 1..Len(Traces) /\ pc = "init"
Next == /\ pc = "init" /\ pc' = "over" /\ t' = t
        /\ LET tr == Traces[t] IN PrintT("VERDICT" \o ToJson([t |-> t, bad |-> Judge(tr), judged |-> 1]))
=============================================================================
