------------------------------- MODULE Convert ------------------------------
(***************************************************************************)
(* Conversion between the meshes of deodr and those of other libraries,    *)
(* which hold per vertex a position, and a texture coordinate or a colour, *)
(* and so list vertices several times along seams:                         *)
(*   e = [v, f, kind, uv, tex, colors]   f[k]: corners [v |-> , t |-> ],   *)
(*       0 based indices of position and texture coordinate; kind "texture"*)
(*       "vertex" or "face"; tex rows of texels, in 0..255; faces          *)
(*       are counter-clockwise, (0, 0) is the bottom left of the texture   *)
(*   m = [v, f, fuv, uv, tex, colors, cw]  the centre of texel (i, j) is   *)
(*       (i, j), from the top left; values in 0..1                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Rat

At(s, i) == s[i + 1]
Width(tex) == Len(tex[1])
Height(tex) == Len(tex)
Half == "1/2"
ToPixels(t, tex) == <<RSub(RMul(t[1], Width(tex)), Half), RSub(RMul(RSub("1", t[2]), Height(tex)), Half)>>
FromPixels(t, tex) == <<RDiv(RAdd(t[1], Half), Width(tex)), RSub("1", RDiv(RAdd(t[2], Half), Height(tex)))>>

\* the channels of a texel that are colours: the transparency is left out
Shown(c) == IF Len(c) \in {2, 4} THEN Len(c) - 1 ELSE Len(c)

\* colours at one place must agree: edges could not be antialiased otherwise
Consistent(e) == \A i, j \in DOMAIN e.v : e.v[i] = e.v[j] => e.colors[i] = e.colors[j]
CanComeFrom(e) == e.kind = "texture" \/ (e.kind = "vertex" /\ Consistent(e))
CanBecome(m) == m.colors = <<>> /\ m.tex # <<>>

\* corners as seen from outside, in counter-clockwise order
Turned(f, cw) == IF cw THEN <<f[3], f[2], f[1]>> ELSE f
Rotations(f) == {f, <<f[2], f[3], f[1]>>, <<f[3], f[1], f[2]>>}
Places(v, f) == [n \in 1..3 |-> At(v, f[n])]
=============================================================================
