-------------------------------- MODULE Obj ---------------------------------
(***************************************************************************)
(* The text of OBJ files.  A file is a sequence of lines                   *)
(*   [key, args, style]                                                    *)
(* key "v": args three numbers (strings), after which a weight or a colour *)
(* may follow; key "f": args three or more references, of a polygon that   *)
(* is read as the triangles around its first corner.  A reference is       *)
(* [v, form, rel], v the vertex's number (from 1), form which of the       *)
(* optional texture and normal numbers follow it, rel whether numbers are  *)
(* written relative to the vertices read so far; other keys carry nothing  *)
(* that is read.  style is how the line is laid out, which does not matter.*)
(*                                                                         *)
(* Reading is the machine that goes through the lines, with state r =      *)
(* [v, f]: the vertices and the faces, 0 based.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Read0 == [v |-> <<>>, f |-> <<>>]
ReadLine(r, l) ==
    CASE l.key = "v" -> [r EXCEPT !.v = Append(@, SubSeq(l.args, 1, 3))]
      [] l.key = "f" -> LET at(n) == IF l.args[n].v < 0 THEN Len(r.v) + l.args[n].v ELSE l.args[n].v - 1
                        IN  [r EXCEPT !.f = @ \o [k \in 1..(Len(l.args) - 2) |-> <<at(1), at(k + 1), at(k + 2)>>]]
      [] OTHER -> r
Read(lines) == FoldLeft(ReadLine, Read0, lines)
=============================================================================
