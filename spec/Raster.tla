------------------------------- MODULE Raster -------------------------------
(***************************************************************************)
(* The image a 2.5D scene of triangles denotes, as a state machine.        *)
(*                                                                         *)
(* A scene S is a record of numbers (strings, see Rat):                    *)
(*   H, W, C          image height and width, number of channels (ints)    *)
(*   pix              sequence of <<x, y>>: the pixels under observation   *)
(*   faces, facesuv   sequences of <<a, b, c>>, vertex indices from 0      *)
(*   ij, depths, colors, shade, uv     per vertex attributes               *)
(*   tex, TW, TH      texture: tex[y * TW + x + 1] is a tuple of C numbers *)
(*   edgeflags        per face <<b, b, b>>;  textured: per face            *)
(*   clockwise, culling, strict, persp, intcenter      options (booleans)  *)
(*   bgimage          per observed pixel, the tuple of C background values *)
(*   sigma            width of the antialiasing strip, "0" for none        *)
(*   errmode, obs     error antialiasing; obs per observed pixel           *)
(*   eps              "0": the inputs are small dyadic numbers, on which   *)
(*                    the implementation's coverage tests are exact; else  *)
(*                    comparisons closer than eps are not decided          *)
(*   exactz           depth comparisons are exact as well                  *)
(*   dev              "" , or the name of a known deviation of the code    *)
(*                    from this specification (see known_findings.json):   *)
(*                    "KF1", "KF2"; used to recognise exactly the known    *)
(*                    findings, never to accept anything else              *)
(*                                                                         *)
(* The pipeline:  Clear ; DrawTriangle (in face order) ; StartError ;      *)
(* DrawEdge (faces from far to near, edges in order).  The state after     *)
(* each step is a record [pc, k, z, img, own, err, amb, tie]: amb holds    *)
(* the observed pixels whose value the specification leaves open because a *)
(* comparison was closer than eps; tie those where several faces are       *)
(* nearest; crease those whose texture is looked up at a border of texels. *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, SequencesExt

Px(S) == 1..Len(S.pix)
Off(S) == IF S.intcenter THEN "0" ELSE "1/2"

Lin(l, x, y) == RAdd(RAdd(RMul(l[1], x), RMul(l[2], y)), l[3])
Scale(l, f) == <<RMul(l[1], f), RMul(l[2], f), RMul(l[3], f)>>
CombLin(w, a) == \* sum_v a[v] * w[v], a linear function of the pixel
    LET n == Len(w)
    IN  [c \in 1..3 |-> RSum([v \in 1..n |-> RMul(a[v], w[v][c])])]

Vert(S, v) == <<RSub(S.ij[v+1][1], Off(S)), RSub(S.ij[v+1][2], Off(S))>>

Cross(o, a, b) == RSub(RMul(RSub(a[1], o[1]), RSub(b[2], o[2])),
                       RMul(RSub(a[2], o[2]), RSub(b[1], o[1])))

\* twice the signed area of face k, y pointing down, positive for front faces
RawArea2(S, k) == Cross(Vert(S, S.faces[k][1]), Vert(S, S.faces[k][2]), Vert(S, S.faces[k][3]))
Area2(S, k) == IF S.clockwise THEN RawArea2(S, k) ELSE RNeg(RawArea2(S, k))

InFront(S, k) == \A i \in 1..3 : RLe("0", S.depths[S.faces[k][i]+1])
FrontFacing(S, k) == InFront(S, k) /\ RSign(Area2(S, k)) > 0
Drawn(S, k) == InFront(S, k) /\ RSign(Area2(S, k)) # 0 /\ (S.culling => RSign(Area2(S, k)) > 0)

(* Geometry of face k: barycentric weights as linear functions of the pixel, and inside functions *)
Tri(S, k) ==
    LET p == [i \in 1..3 |-> Vert(S, S.faces[k][i])]
        D == RawArea2(S, k)
        num(i) == LET q == p[(i % 3) + 1]  r == p[((i+1) % 3) + 1]
                  IN  <<RSub(q[2], r[2]), RSub(r[1], q[1]), RSub(RMul(q[1], r[2]), RMul(r[1], q[2]))>>
        inv == RDiv("1", D)
        sg == RSign(D)
        xs == {RFloor(p[i][1]) : i \in 1..3}
        ys == {RFloor(p[i][2]) : i \in 1..3}
        Mn(X) == CHOOSE a \in X : \A b \in X : a <= b
        Mx(X) == CHOOSE a \in X : \A b \in X : a >= b
    IN  TLCEval([w |-> <<Scale(num(1), inv), Scale(num(2), inv), Scale(num(3), inv)>>,
                 ins |-> [i \in 1..3 |-> LET n == num(i) IN
                             [c \in 1..3 |-> IF sg > 0 THEN RVal(n[c]) ELSE RVal(RNeg(n[c]))]],
                 box |-> <<Mn(xs), Mx(xs) + 1, Mn(ys), Mx(ys) + 1>>])

\* a pixel exactly on a border belongs to the triangle when the border is a right or bottom one
Inclusive(S, l) == ~S.strict \/ RSign(l[1]) < 0 \/ (RSign(l[1]) = 0 /\ RSign(l[2]) < 0)

InBox(T, x, y) == T.box[1] <= x /\ x <= T.box[2] /\ T.box[3] <= y /\ y <= T.box[4]

\* "in", "out", or "open" when the implementation's rounding decides
Coverage(S, T, x, y) ==
    IF ~InBox(T, x, y) THEN "out"
    ELSE LET v == TLCEval([i \in 1..3 |-> Lin(T.ins[i], x, y)])
             sgn(i) == IF S.eps # "0" /\ RLt(RAbs(v[i]), S.eps) THEN 0 ELSE RSign(v[i])
         IN  IF \E i \in 1..3 : sgn(i) < 0 THEN "out"
             ELSE IF \A i \in 1..3 : sgn(i) > 0 THEN "in"
             ELSE IF S.eps # "0" THEN "open"
             ELSE IF \A i \in 1..3 : sgn(i) > 0 \/ Inclusive(S, T.ins[i]) THEN "in" ELSE "out"

(* Depth at a pixel from weights w (linear) of vertices vs (sequence of vertex indices) *)
VDepth(S, v) == S.depths[v+1]
DepthLin(S, w, vs) ==
    CombLin(w, [i \in 1..Len(vs) |-> IF S.persp THEN RDiv("1", VDepth(S, vs[i])) ELSE VDepth(S, vs[i])])
DepthAt(S, dl, x, y) == LET d == Lin(dl, x, y) IN IF S.persp THEN RDiv("1", d) ELSE d

\* value at a pixel of an attribute with values a at the vertices, at depth z
AttrLin(S, w, vs, a) ==
    CombLin(w, [i \in 1..Len(vs) |-> IF S.persp THEN RDiv(a[i], VDepth(S, vs[i])) ELSE a[i]])
AttrAt(S, al, x, y, z) == IF S.persp THEN RMul(Lin(al, x, y), z) ELSE Lin(al, x, y)

(* Bilinear texture lookup at p = <<column, row>>, the borders extended outwards *)
TexCoord(p, n) == \* <<integer part, fraction, constant?>>
    IF n = 1 \/ RFloor(p) < 0 THEN <<0, R(0)>>
    ELSE IF RFloor(p) > n - 2 THEN <<n - 2, R(1)>>
    ELSE <<RFloor(p), RSub(p, RFloor(p))>>

Lower(a, b) == IF a < b THEN a ELSE b
Texel(S, x, y, c) == S.tex[Lower(y, S.TH - 1) * S.TW + Lower(x, S.TW - 1) + 1][c]

Bilinear(S, u, v) ==
    LET a == TLCEval(TexCoord(u, S.TW))  b == TLCEval(TexCoord(v, S.TH))
        w00 == RMul(RSub(1, a[2]), RSub(1, b[2]))   w10 == RMul(a[2], RSub(1, b[2]))
        w01 == RMul(RSub(1, a[2]), b[2])            w11 == RMul(a[2], b[2])
        w == TLCEval(<<w00, w10, w01, w11>>)
    IN  [c \in 1..S.C |->
           RDot(w, <<Texel(S, a[1], b[1], c), Texel(S, a[1]+1, b[1], c),
                     Texel(S, a[1], b[1]+1, c), Texel(S, a[1]+1, b[1]+1, c)>>)]

(* Appearance of a piece of surface (triangle: 3 vertices, edge: 2), ready to be evaluated at pixels *)
Look(S, k, w, sub) ==
    LET vs == [i \in 1..Len(sub) |-> S.faces[k][sub[i]]]
        us == [i \in 1..Len(sub) |-> S.facesuv[k][sub[i]]]
    IN  TLCEval([d |-> DepthLin(S, w, vs),
         tex |-> S.textured[k],
         sh |-> IF S.textured[k] THEN AttrLin(S, w, vs, [i \in 1..Len(vs) |-> S.shade[vs[i]+1]]) ELSE <<>>,
         uv |-> IF S.textured[k]
                THEN [c \in 1..2 |-> AttrLin(S, w, vs, [i \in 1..Len(vs) |-> S.uv[us[i]+1][c]])] ELSE <<>>,
         col |-> IF S.textured[k] THEN <<>>
                 ELSE [c \in 1..S.C |-> AttrLin(S, w, vs, [i \in 1..Len(vs) |-> S.colors[vs[i]+1][c]])]])

ColorAt(S, lk, x, y, z) ==
    IF lk.tex
    THEN LET t == TLCEval(Bilinear(S, AttrAt(S, lk.uv[1], x, y, z), AttrAt(S, lk.uv[2], x, y, z)))
             l == AttrAt(S, lk.sh, x, y, z)
         IN  TLCEval([c \in 1..S.C |-> RMul(t[c], l)])
    ELSE TLCEval([c \in 1..S.C |-> AttrAt(S, lk.col[c], x, y, z)])

\* is the texture looked up where two cells meet, where the image has no derivative?
Creased(S, lk, x, y, z) ==
    lk.tex /\ \E c \in 1..2 : LET p == RVal(AttrAt(S, lk.uv[c], x, y, z))
                              IN  RClose(p, RFloor(RAdd(p, "1/2")), "1/1000000000")

\* KF1: in error mode, only the column coefficient of an edge's colour moves
DevLook(S, lk) ==
    IF S.dev = "KF1" /\ S.errmode /\ ~lk.tex
    THEN [lk EXCEPT !.col = [c \in 1..S.C |-> <<lk.col[c][1], RVal(lk.col[c][2]), RVal(lk.col[c][3])>>]]
    ELSE lk

SumDepth(S, k) == RVal(RSum([i \in 1..3 |-> S.depths[S.faces[k][i]+1]]))
SameDepths(S, j, k) == \A i \in 1..3 : S.depths[S.faces[k][i]+1] = S.depths[S.faces[j][i]+1]

\* scenes that the specification does not decide: faces whose orientation, or order, rounding decides
Undecided(S) ==
    S.eps # "0" /\
    (\/ \E k \in 1..Len(S.faces) : LET a == RVal(RawArea2(S, k)) IN a # "0" /\ RLt(RAbs(a), S.eps)
     \/ \E j, k \in 1..Len(S.faces) : j < k /\ RLt("0", S.sigma) /\ FrontFacing(S, j) /\ FrontFacing(S, k)
                                        /\ ~SameDepths(S, j, k) /\ RClose(SumDepth(S, j), SumDepth(S, k), S.eps))

(* ------------------------------ actions ------------------------------ *)
Cleared(S) == [pc |-> "tri", k |-> 1, img |-> S.bgimage, err |-> <<>>,
               z |-> [i \in Px(S) |-> "inf"], own |-> [i \in Px(S) |-> 0], amb |-> IF Undecided(S) THEN Px(S) ELSE {}, tie |-> {}, crease |-> {}]

SameSurface(S, k, j) ==
    j > 0 /\ \A i \in 1..3 : S.ij[S.faces[k][i]+1] = S.ij[S.faces[j][i]+1]
                             /\ S.depths[S.faces[k][i]+1] = S.depths[S.faces[j][i]+1]

\* "lt", "ge" or "open": is depth z strictly in front of depth zb (own by face j)
DepthTest(S, z, zb, k, j) ==
    IF zb = "inf" THEN "lt"
    ELSE IF S.exactz THEN IF RLt(z, zb) THEN "lt" ELSE "ge"
    ELSE IF RClose(z, zb, "1/1000000000")
         THEN IF k > 0 /\ SameSurface(S, k, j) THEN "ge" ELSE "open"
    ELSE IF RLt(z, zb) THEN "lt" ELSE "ge"

DrawTriangle(S, st) ==
    LET k == st.k
        next == [st EXCEPT !.k = k + 1, !.pc = IF k = Len(S.faces) THEN "err" ELSE "tri"]
    IN  IF ~Drawn(S, k) THEN next
        ELSE LET T == Tri(S, k)
                 lk == Look(S, k, T.w, <<1, 2, 3>>)
                 At(i) == \* <<effect, depth, color>>
                     LET x == S.pix[i][1]  y == S.pix[i][2]
                         cov == Coverage(S, T, x, y)
                     IN  IF cov = "out" THEN <<"none">>
                         ELSE LET z == TLCEval(DepthAt(S, lk.d, x, y))
                                  dt == DepthTest(S, RVal(z), st.z[i], k, st.own[i])
                                  same == st.z[i] # "inf" /\ RClose(z, st.z[i], "1/1000000000")
                              IN  IF S.dev = "KF2" /\ same /\ cov = "in" THEN <<"set", RVal(z), ColorAt(S, lk, x, y, z), Creased(S, lk, x, y, z)>>
                                  ELSE IF dt = "ge" THEN IF same /\ cov # "out" THEN <<"tie">> ELSE <<"none">>
                                  ELSE IF cov = "open" THEN <<"open">>
                                  ELSE IF dt = "open" THEN <<"open">>
                                  ELSE <<"set", RVal(z), ColorAt(S, lk, x, y, z), Creased(S, lk, x, y, z)>>
                 e == TLCEval([i \in Px(S) |-> TLCEval(At(i))])
                 Is(i, s) == e[i][1] = s
             IN  TLCEval([next EXCEPT
                    !.z   = [i \in Px(S) |-> IF Is(i, "set") THEN e[i][2] ELSE st.z[i]],
                    !.img = [i \in Px(S) |-> IF Is(i, "set") THEN e[i][3] ELSE st.img[i]],
                    !.own = [i \in Px(S) |-> IF Is(i, "set") THEN k ELSE st.own[i]],
                    !.crease = {i \in Px(S) : IF Is(i, "set") THEN e[i][4] ELSE i \in st.crease},
                    !.tie = {i \in Px(S) : Is(i, "tie") \/ (Is(i, "none") /\ i \in st.tie)},
                    !.amb = IF Undecided(S) THEN Px(S) ELSE {i \in Px(S) : Is(i, "open") \/ ((Is(i, "none") \/ Is(i, "tie")) /\ i \in st.amb)}])

\* faces in the order their edges are drawn: by decreasing sum of depths
EdgeOrder(S) ==
    LET flagged == {k \in 1..Len(S.faces) : FrontFacing(S, k) /\ \E n \in 1..3 : S.edgeflags[k][n]}
        d == TLCEval([k \in flagged |-> SumDepth(S, k)])
        Before(a, b) == RLt(d[b], d[a]) \/ (d[a] = d[b] /\ a < b)
        ks == SetToSortSeq(flagged, Before)
        one(k) == [n \in 1..3 |-> <<k, n>>]
    IN  SelectSeq(FoldLeft(LAMBDA acc, k : acc \o one(k), <<>>, ks), LAMBDA e : S.edgeflags[e[1]][e[2]])

StartEdges(S, st) ==
    LET edges == IF RLt("0", S.sigma) THEN EdgeOrder(S) ELSE <<>>
    IN  [pc |-> IF edges = <<>> THEN "done" ELSE "edge", k |-> 1, img |-> st.img,
         err |-> IF ~S.errmode THEN <<>>
                 ELSE TLCEval([i \in Px(S) |-> RSum([c \in 1..S.C |-> RSq(RSub(st.img[i][c], S.obs[i][c]))])]),
         z |-> st.z, own |-> st.own, amb |-> st.amb, tie |-> st.tie, crease |-> st.crease, edges |-> edges]

EdgeEnds == <<<<2, 1>>, <<3, 2>>, <<1, 3>>>>     \* edge n joins corners n and n+1 of its face

EdgeGeom(S, k, n) ==
    LET sub == EdgeEnds[n]
        p == Vert(S, S.faces[k][sub[1]])   q == Vert(S, S.faces[k][sub[2]])
        dx == RSub(q[1], p[1])  dy == RSub(q[2], p[2])
        l2 == RAdd(RSq(dx), RSq(dy))
        nrm == RSqrt(l2)
        s == IF S.clockwise THEN "1" ELSE "-1"
        nx == RMul(s, RDiv(RNeg(dy), nrm))   ny == RMul(s, RDiv(dx, nrm))   \* unit, pointing outwards
        b1 == <<RDiv(dx, l2), RDiv(dy, l2), RNeg(RDiv(RAdd(RMul(p[1], dx), RMul(p[2], dy)), l2))>>
        b0 == <<RNeg(b1[1]), RNeg(b1[2]), RSub(1, b1[3])>>
        tt == <<nx, ny, RNeg(RAdd(RMul(p[1], nx), RMul(p[2], ny)))>>
    IN  TLCEval([w |-> <<b0, b1>>, T |-> Scale(tt, RDiv("1", S.sigma)), sub |-> sub])

DrawEdge(S, st) ==
    LET k == st.edges[st.k][1]  n == st.edges[st.k][2]
        E == EdgeGeom(S, k, n)
        lk == DevLook(S, Look(S, k, E.w, E.sub))
        tol == IF S.eps = "0" THEN "1/1000000000000" ELSE S.eps
        At(i) ==
            LET x == S.pix[i][1]  y == S.pix[i][2]
                b1 == RVal(Lin(E.w[2], x, y))  t == TLCEval(Lin(E.T, x, y))  tv == RVal(t)
                Out(v) == RLt(v, RNeg(tol))
                In(v) == RLt(tol, v)
                omt == RSub(1, tv)  b0 == RSub(1, b1)
            IN  IF Out(b1) \/ Out(b0) \/ Out(tv) \/ Out(omt) THEN <<"none">>
                ELSE LET z == TLCEval(DepthAt(S, lk.d, x, y))
                         dt == DepthTest(S, RVal(z), st.z[i], 0, 0)
                     IN  IF dt = "ge" THEN <<"none">>
                         ELSE IF dt = "open" \/ ~(In(b1) /\ In(b0) /\ In(tv) /\ In(omt)) THEN <<"open">>
                         ELSE <<"mix", t, ColorAt(S, lk, x, y, z), Creased(S, lk, x, y, z)>>
        e == TLCEval([i \in Px(S) |-> TLCEval(At(i))])
        Mix(t, a, b) == RAdd(RMul(t, a), RMul(RSub(1, t), b))
        Sq(i) == RSum([c \in 1..S.C |-> RSq(RSub(e[i][3][c], S.obs[i][c]))])
        mixed(i) == e[i][1] = "mix"
    IN  TLCEval([st EXCEPT
            !.k = st.k + 1, !.pc = IF st.k = Len(st.edges) THEN "done" ELSE "edge",
            !.amb = st.amb \cup {i \in Px(S) : e[i][1] = "open"},
            !.crease = st.crease \cup {i \in Px(S) : e[i][1] = "mix" /\ e[i][4]},
            !.img = IF S.errmode THEN st.img
                    ELSE [i \in Px(S) |-> IF mixed(i)
                             THEN [c \in 1..S.C |-> Mix(e[i][2], st.img[i][c], e[i][3][c])] ELSE st.img[i]],
            !.err = IF ~S.errmode THEN st.err
                    ELSE [i \in Px(S) |-> IF mixed(i) THEN Mix(e[i][2], st.err[i], Sq(i)) ELSE st.err[i]]])

RStep(S, st) ==
    CASE st.pc = "tri"  -> IF Len(S.faces) = 0 THEN [st EXCEPT !.pc = "err"] ELSE DrawTriangle(S, st)
      [] st.pc = "err"  -> StartEdges(S, st)
      [] st.pc = "edge" -> DrawEdge(S, st)

(* ---------------------- properties of the design ---------------------- *)
\* what is drawn never moves backwards in depth, and background pixels keep the background
DepthMonotone(st, st2) == \A i \in DOMAIN st.z : ~RLt(st.z[i], st2.z[i])
BackgroundKept(S, st) == st.pc \in {"tri", "err"} => \A i \in Px(S) : st.own[i] = 0 => st.img[i] = S.bgimage[i] /\ st.z[i] = "inf"
\* the depth map is the minimum over the drawn faces that cover the pixel
NearestWins(S, st) ==
    st.pc = "err" =>
      \A i \in Px(S) : LET x == S.pix[i][1]  y == S.pix[i][2] IN
        /\ \A k \in 1..Len(S.faces) : Drawn(S, k) =>
             LET T == Tri(S, k) IN
             Coverage(S, T, x, y) = "in" => RLe(st.z[i], RVal(DepthAt(S, Look(S, k, T.w, <<1,2,3>>).d, x, y)))
        /\ st.own[i] > 0 => LET T == Tri(S, st.own[i]) IN
             /\ Coverage(S, T, x, y) = "in"
             /\ REq(st.z[i], RVal(DepthAt(S, Look(S, st.own[i], T.w, <<1,2,3>>).d, x, y)))
=============================================================================
