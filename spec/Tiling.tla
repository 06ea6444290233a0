------------------------------- MODULE Tiling -------------------------------
(***************************************************************************)
(* Every face whose vertices are on a lattice around a small image, and    *)
(* every way to extend it by a fourth point: inside, the point splits the  *)
(* face in three; on a side, in two; outside, it makes a neighbouring face *)
(* on each of the sides it sees.  Checked on all of them, by TLC: what     *)
(* Raster's Coverage gives to the faces is a tiling.                       *)
(***************************************************************************)
EXTENDS Raster, Json

CONSTANTS W, H, Den  \* size of the image; lattice of 1/Den around it

VARIABLE pts         \* numbers of up to four lattice points
vars == <<pts>>

NX == Den * (W - 1) + 3
NY == Den * (H - 1) + 3
Code == 0..(NX * NY - 1)
Int2(c) == <<(c % NX) - 1, (c \div NX) - 1>>     \* coordinates times Den
At(c) == <<RDiv(Int2(c)[1], Den), RDiv(Int2(c)[2], Den)>>
Area(a, b, c) == LET p == Int2(a)  q == Int2(b)  r == Int2(c)
                 IN  (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])

Init == pts = <<>>
Next == \/ /\ Len(pts) = 0
           /\ \E a \in Code : pts' = <<a>>
        \/ /\ Len(pts) = 1
           /\ \E b \in Code : b > pts[1] /\ pts' = Append(pts, b)
        \/ /\ Len(pts) = 2
           /\ \E c \in Code : c > pts[1] /\ Area(pts[1], pts[2], c) > 0 /\ pts' = Append(pts, c)
        \/ /\ Len(pts) = 3
           /\ \E d \in Code : d \notin {pts[1], pts[2], pts[3]} /\ pts' = Append(pts, d)
Spec == Init /\ [][Next]_vars

Pixels == [x : 0..(W - 1), y : 0..(H - 1)]
One(f, strict) == [pix |-> <<>>, faces |-> <<<<0, 1, 2>>>>, ij |-> [i \in 1..3 |-> At(f[i])], intcenter |-> TRUE,
                   strict |-> strict, eps |-> "0", clockwise |-> TRUE, culling |-> TRUE]
Covers(f, strict) ==
    LET S == One(f, strict)  T == Tri(S, 1)
    IN  TLCEval({p \in Pixels : Coverage(S, T, p.x, p.y) = "in"})

\* the faces, in the orientation of pts, that the points make
Turn(s) == {<<s[1], s[2], s[3]>>, <<s[2], s[3], s[1]>>, <<s[3], s[1], s[2]>>}
F == <<pts[1], pts[2], pts[3]>>
Sides == <<<<pts[1], pts[2]>>, <<pts[2], pts[3]>>, <<pts[3], pts[1]>>>>
Sees(i) == Area(Sides[i][1], Sides[i][2], pts[4])   \* > 0: on the side of the face
Inside == \A i \in 1..3 : Sees(i) >= 0
Split == SelectSeq([i \in 1..3 |-> <<Sides[i][1], Sides[i][2], pts[4]>>], LAMBDA s : Area(s[1], s[2], s[3]) > 0)
Beside == SelectSeq([i \in 1..3 |-> <<Sides[i][2], Sides[i][1], pts[4]>>], LAMBDA s : Area(s[1], s[2], s[3]) > 0)
Pieces == IF Inside THEN Split ELSE <<F>> \o Beside

Union(n, strict) == UNION {Covers(n[i], strict) : i \in 1..Len(n)}
Disjoint(n) == \A i, j \in 1..Len(n) : i < j => Covers(n[i], TRUE) \cap Covers(n[j], TRUE) = {}

(* declarative coverage, in integers *)
Where(s, p) == LET a == Int2(s[1])  b == Int2(s[2])
               IN  (b[1] - a[1]) * (Den * p.y - a[2]) - (b[2] - a[2]) * (Den * p.x - a[1])
OpenFace(f) == {p \in Pixels : \A i \in 1..3 : Where(<<f[i], f[(i % 3) + 1]>>, p) > 0}
ClosedFace(f) == {p \in Pixels : \A i \in 1..3 : Where(<<f[i], f[(i % 3) + 1]>>, p) >= 0}

(* ------------------------------ properties ------------------------------ *)
Three == Len(pts) = 3
Four == Len(pts) = 4
\* between the open and the closed face; exactly the closed one without strict edges
Inner == Three => /\ OpenFace(F) \subseteq Covers(F, TRUE)
                  /\ Covers(F, TRUE) \subseteq ClosedFace(F)
                  /\ Covers(F, FALSE) = ClosedFace(F)
\* whichever vertex comes first, and whichever way the face turns
Oriented == Three => \A g \in Turn(F) \cup Turn(<<pts[1], pts[3], pts[2]>>) : Covers(g, TRUE) = Covers(F, TRUE)
\* faces that share a side never share a pixel
NoOverlap == Four => Disjoint(Pieces)
\* splitting a face leaves nothing out and adds nothing
NoGap == Four /\ Inside => Union(Split, TRUE) = Covers(F, TRUE) /\ Union(Split, FALSE) = Covers(F, FALSE)
\* a pixel on the side that a face shares with another belongs to one of them
SharedSide == Four /\ ~Inside =>
    \A i \in 1..Len(Beside) : \A p \in ClosedFace(F) \cap ClosedFace(Beside[i]) :
        (\E k \in 1..3 : Sides[k] = <<Beside[i][2], Beside[i][1]>> /\ Where(Sides[k], p) = 0
                         /\ \A j \in 1..3 \ {k} : Where(Sides[j], p) > 0)
        /\ Where(<<Beside[i][2], Beside[i][3]>>, p) > 0 /\ Where(<<Beside[i][3], Beside[i][1]>>, p) > 0
        => p \in Covers(F, TRUE) \cup Covers(Beside[i], TRUE)

Emit == Four => PrintT("CASE" \o ToJson([W |-> W, H |-> H, den |-> Den, pts |-> [i \in 1..4 |-> Int2(pts[i])],
                                         faces |-> LET ix(c) == (CHOOSE i \in 1..4 : pts[i] = c) - 1
                                                   IN  [k \in 1..Len(Pieces) |-> [i \in 1..3 |-> ix(Pieces[k][i])]]]))
=============================================================================
