-------------------------------- MODULE Pose --------------------------------
(***************************************************************************)
(* Rotations by quaternions <<x, y, z, w>> and rigid motions.              *)
(***************************************************************************)
EXTENDS Mesh

Normed(x) == LET n2 == TLCEval(RDot(x, x)) IN
             IF RSign(n2) = 0 THEN x ELSE LET n == TLCEval(RDiv("1", RSqrt(n2))) IN TLCEval([k \in DOMAIN x |-> RMul(n, x[k])])
QRot(q, v) ==
    LET u == <<q[1], q[2], q[3]>>
        uv == TLCEval(Cross3(u, v))
    IN  TLCEval(Add3(v, Mul3(2, Add3(Mul3(q[4], uv), Cross3(u, uv)))))
\* the rotation matrix of a unit quaternion
QMatrix(q) == LET x == q[1]  y == q[2]  z == q[3]  w == q[4]
                  two(a, b, c, d, s) == RMul(2, RAdd(RMul(a, b), RMul(s, RMul(c, d))))
                  dg(a, b) == RSub("1", RMul(2, RAdd(RSq(a), RSq(b))))
              IN  <<<<dg(y, z), two(x, y, z, w, -1), two(x, z, y, w, 1)>>,
                    <<two(x, y, z, w, 1), dg(x, z), two(y, z, x, w, -1)>>,
                    <<two(x, z, y, w, -1), two(y, z, x, w, 1), dg(x, y)>>>>
Apply3(m, v) == [r \in 1..3 |-> InnerP(m[r], v)]
\* vertices in the world: turned by the direction of q, then moved
Posed(q, t, xs) == LET n == Normed(q) IN TLCEval([i \in DOMAIN xs |-> TLCEval(Add3(QRot(n, xs[i]), t))])
Centred(xs) == LET m == Mul3(RDiv("1", Len(xs)), Sum3(xs)) IN TLCEval([i \in DOMAIN xs |-> TLCEval(Sub3(xs[i], m))])
=============================================================================
