------------------------------ MODULE Validity ------------------------------
(***************************************************************************)
(* Which 2.5D scenes, and calls on them, are consistent.  A scene is       *)
(* described by the shapes of its arrays (sequences of sizes), the largest *)
(* indices in its faces, and the kind of its background; every call either *)
(* is accepted, or raises an exception and leaves the buffers as they are. *)
(* Behaviours: start from a consistent scene, change one or two fields,    *)
(* call.  What was consistent before (and may have been rendered) says     *)
(* nothing about what the scene is when it is called.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxChanges, Bases, Calls

VARIABLES s, before, changed, call
vars == <<s, before, changed, call>>

(* a consistent scene with nT faces, nV vertices, nU texture coordinates, C channels, H x W pixels *)
Base(b) ==
    LET nT == 2  nV == 5  nU == 4  C == b.C  H == 4  W == 5 IN
    [faces |-> <<nT, 3>>, facesuv |-> <<nT, 3>>, ij |-> <<nV, 2>>, depths |-> <<nV>>, textured |-> <<nT>>,
     uv |-> <<nU, 2>>, shade |-> <<nV>>, colors |-> <<nV, C>>, shaded |-> <<nT>>, edgeflags |-> <<nT, 3>>,
     size |-> <<H, W>>, channels |-> <<C>>,
     texture |-> IF b.tex THEN <<3, 4, C>> ELSE <<0, 0>>,
     bgimage |-> IF b.image THEN <<H, W, C>> ELSE <<>>,
     bgcolor |-> IF b.image THEN <<>> ELSE <<C>>,
     ijb |-> <<nV, 2>>, uvb |-> <<nU, 2>>, shadeb |-> <<nV>>, colorsb |-> <<nV, C>>,
     textureb |-> IF b.tex THEN <<3, 4, C>> ELSE <<0, 0>>,
     obs |-> <<H, W, C>>, adj |-> <<H, W, C>>, adjerr |-> <<H, W>>,
     maxface |-> <<nV - 1>>, maxfaceuv |-> <<nU - 1>>,
     usetexture |-> <<IF b.tex THEN 1 ELSE 0>>, facetype |-> <<32>>, culling |-> <<1>>, persp |-> <<0>>]

SceneFields == {"faces", "facesuv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "size",
                "channels", "texture", "bgimage", "bgcolor", "maxface", "maxfaceuv", "usetexture", "facetype", "culling", "persp"}
GradFields == {"ijb", "uvb", "shadeb", "colorsb", "textureb"}
CallFields == {"obs", "adj", "adjerr"}

Size(sh) == IF sh = <<>> THEN 0 ELSE LET f[i \in 0..Len(sh)] == IF i = 0 THEN 1 ELSE f[i-1] * sh[i] IN f[Len(sh)]

(* the changes of one field *)
Deltas(f, sh) ==
    IF f = "facetype" THEN {<<64>>}
    ELSE IF f \in {"usetexture", "culling", "persp"} THEN {<<1 - sh[1]>>}
    ELSE IF f \in {"maxface", "maxfaceuv"} THEN {<<sh[1] + 1>>, <<sh[1] + 100000>>, <<-1>>}
    ELSE IF sh = <<>> THEN {<<4, 5, 3>>, <<3>>} \ {sh}            \* a missing background appears
    ELSE UNION {{[sh EXCEPT ![i] = @ + d] : d \in {x \in {-1, 1} : sh[i] + x > 0}} : i \in 1..Len(sh)}
         \cup (IF f \in {"bgimage", "bgcolor"} THEN {<<>>} ELSE {})
         \cup (IF f = "texture" THEN {<<0, 0>>} \ {sh} ELSE {})
         \cup (IF f \in {"size", "channels"} \/ Len(sh) = 1 THEN {} ELSE {Tail(sh)})  \* one axis less
         \cup (IF f \in {"size", "channels"} THEN {} ELSE {Append(sh, 1), Append(sh, 2)})    \* or more

(* ------------------------------ validity ------------------------------ *)
Valid(x) ==
    LET nT == x.faces[1]  nV == x.depths[1]  nU == x.uv[1]  C == x.channels[1]  H == x.size[1]  W == x.size[2] IN
    /\ x.facetype = <<32>>
    /\ x.faces = <<nT, 3>> /\ x.facesuv = <<nT, 3>>
    /\ x.maxface[1] \in 0..(nV - 1) /\ x.maxfaceuv[1] \in 0..(nU - 1)
    /\ x.uv = <<nU, 2>> /\ x.ij = <<nV, 2>> /\ x.shade = <<nV>> /\ x.colors = <<nV, C>> /\ x.depths \in {<<nV>>, <<nV, 1>>}
    /\ x.edgeflags = <<nT, 3>> /\ x.textured = <<nT>> /\ x.shaded = <<nT>>
    /\ (x.bgimage = <<>>) # (x.bgcolor = <<>>)
    /\ x.bgimage \in {<<>>, <<H, W, C>>} /\ x.bgcolor \in {<<>>, <<C>>}
    /\ IF Size(x.texture) > 0 THEN Len(x.texture) = 3 /\ x.texture[3] = C ELSE Len(x.texture) >= 2 /\ x.usetexture[1] = 0
ValidGrad(x) ==
    LET nV == x.depths[1]  nU == x.uv[1]  C == x.channels[1] IN
    /\ x.culling[1] = 1 /\ x.persp[1] = 0
    /\ x.ijb = <<nV, 2>> /\ x.uvb = <<nU, 2>> /\ x.shadeb = <<nV>> /\ x.colorsb = <<nV, C>>
    /\ (Size(x.texture) > 0 => x.textureb = x.texture)
ValidCall(x, c) ==
    LET C == x.channels[1]  H == x.size[1]  W == x.size[2] IN
    CASE c = "render" -> Valid(x)
      [] c = "error" -> Valid(x) /\ x.obs = <<H, W, C>>
      [] c = "backward" -> Valid(x) /\ ValidGrad(x) /\ x.adj = <<H, W, C>>
      [] c = "errorbackward" -> Valid(x) /\ ValidGrad(x) /\ x.obs = <<H, W, C>> /\ x.adjerr = <<H, W>>

\* fields that matter to a call
Fields(c) == SceneFields \cup (IF c \in {"backward", "errorbackward"} THEN GradFields ELSE {})
             \cup (CASE c = "render" -> {} [] c = "error" -> {"obs"} [] c = "backward" -> {"adj"} [] c = "errorbackward" -> {"obs", "adjerr"})

(* ------------------------------- actions ------------------------------- *)
AllBases == {[C |-> c, tex |-> t, image |-> i] : c \in {1, 3}, t \in BOOLEAN, i \in BOOLEAN}
SomeBases == {[C |-> 1, tex |-> FALSE, image |-> FALSE], [C |-> 3, tex |-> TRUE, image |-> TRUE]}
Init == /\ \E b \in Bases : s = Base(b)
        /\ before = s
        /\ changed = {} /\ call = ""
Change(f) ==
    /\ call = "" /\ Cardinality(changed) < MaxChanges /\ f \notin changed
    /\ \E v \in Deltas(f, s[f]) : s' = [s EXCEPT ![f] = v]
    /\ changed' = changed \cup {f} /\ UNCHANGED <<before, call>>
DoCall(c) == call = "" /\ changed \subseteq Fields(c) /\ call' = c /\ UNCHANGED <<s, before, changed>>
Next == (\E f \in SceneFields \cup GradFields \cup CallFields : Change(f)) \/ (\E c \in Calls : DoCall(c))
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* an unchanged scene is consistent, and no single change of a size keeps a scene consistent unless nothing refers to the size
BasesAreValid == changed = {} => \A c \in Calls : ValidCall(s, c)
OneChange == Cardinality(changed) = 1 /\ changed \subseteq {"faces", "facesuv", "ij", "shade", "edgeflags", "textured", "shaded", "channels"}
                => ~Valid(s)
Emit == call # "" => PrintT("CASE" \o ToJson([s |-> s, call |-> call, changed |-> changed, before |-> before]))
=============================================================================
