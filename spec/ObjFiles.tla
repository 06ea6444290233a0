------------------------------ MODULE ObjFiles ------------------------------
(* Enumerates files of Obj's format, line by line.                         *)
EXTENDS Obj, Json

CONSTANTS Depth,  \* lines after the first three vertices
          Styles, Forms, Numbers

VARIABLES lines, r
vars == <<lines, r>>

SomeNumbers == {<<"1", "2", "3">>, <<"2", "-0.5", "1e-3">>, <<"3", "+.25", "1.5E2">>, <<"-4.000001", "0", "1234567.875">>,
                <<"5", "-6", "7", "1.0">>, <<"6.5", "0", "-1", "0.25", ".5", "1">>}
Others == {"#", "", "vt", "vn", "vp", "o", "g", "s", "usemtl", "mtllib"}
L(key, args, style) == [key |-> key, args |-> args, style |-> style]
\* a reference to vertex v written after n vertices
Ref(v, form, rel, n) == [v |-> IF rel THEN v - 1 - n ELSE v, form |-> form]
Polygons(n) == {<<1, 2, 3>>, <<n, n - 1, 1>>} \cup (IF n >= 4 THEN {<<1, n, 3, 2>>} ELSE {<<1, 3, 2, 3>>})
Lines(n) == {L("v", x, s) : x \in Numbers, s \in Styles}
            \cup {L("f", [k \in DOMAIN a |-> Ref(a[k], m, rel, n)], s) : a \in Polygons(n), m \in Forms, rel \in BOOLEAN, s \in Styles}
            \cup {L(k, <<>>, "plain") : k \in Others}
First(s) == [k \in 1..3 |-> L("v", CHOOSE x \in Numbers : x[1] = ToString(k), s)]

Init == \E s \in Styles : lines = First(s) /\ r = Read(First(s))
Next == /\ Len(lines) < 3 + Depth
        /\ \E l \in Lines(Len(r.v)) : lines' = Append(lines, l) /\ r' = ReadLine(r, l)
Spec == Init /\ [][Next]_vars

MachineIsRead == r = Read(lines)
FacesExist == \A k \in DOMAIN r.f : \A n \in 1..3 : r.f[k][n] \in 0..(Len(r.v) - 1)
\* what is neither a vertex nor a face is not read, and vertices and faces stay what they were read as
OthersAreSkipped == [][lines'[Len(lines')].key \in Others => r' = r]_vars
ReadingIsMonotone == [][SubSeq(r'.v, 1, Len(r.v)) = r.v /\ SubSeq(r'.f, 1, Len(r.f)) = r.f]_vars
Emit == Len(lines) = 3 + Depth /\ lines[Len(lines)].key = "f" => PrintT("CASE" \o ToJson(lines))
=============================================================================
