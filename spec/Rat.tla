-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact numbers for the DEODR specifications.                             *)
(*                                                                         *)
(* TLC's integers have 32 bits, and the quantities this code base computes *)
(* are rationals (barycentric coordinates, distances, gradients): they are *)
(* represented here by strings "n" or "n/d" in canonical form, optionally  *)
(* followed by tangents, "v~t1~...~tk": the exact derivative of the value  *)
(* in k directions (forward mode differentiation), which is how "the       *)
(* gradient is the exact derivative of the specified forward function" is  *)
(* stated without writing a second, adjoint, specification.                *)
(*                                                                         *)
(* Every operator is a function of its arguments, given by the comment on  *)
(* it, and evaluated by java/RatOverrides.java with big integers: there is *)
(* no rounding, except RSqrt (2^-150 relative, exact on squares), numbers  *)
(* whose denominator exceeds 600 bits (2^-400 relative) and tangents,      *)
(* which are only ever compared with a tolerance (160 significant bits).   *)
(* Arguments may also be (small) TLC integers.  "inf"/"-inf"/"nan" occur   *)
(* in recorded data: comparisons accept the infinities; RClose makes nan   *)
(* close to nothing; all arithmetic on them is an error.                   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL Overridden(x) == CHOOSE s \in {x} : TRUE

R(a)        == Overridden(a)       \* a as a number (from an integer)
RAdd(a, b)  == Overridden(<<a, b>>)  \* a + b
RSub(a, b)  == Overridden(<<a, b>>)  \* a - b
RMul(a, b)  == Overridden(<<a, b>>)  \* a * b
RDiv(a, b)  == Overridden(<<a, b>>)  \* a / b
RNeg(a)     == Overridden(a)         \* - a
RSqrt(a)    == Overridden(a)         \* square root of a >= 0
RLt(a, b)   == Overridden(<<a, b>>)  \* values: a < b
RLe(a, b)   == Overridden(<<a, b>>)  \* values: a <= b
REq(a, b)   == Overridden(<<a, b>>)  \* values: a = b
RSign(a)    == Overridden(a)         \* -1, 0, 1 (a TLC integer)
RFin(a)     == Overridden(a)         \* is the value finite
RFloor(a)   == Overridden(a)         \* floor, as a TLC integer (saturated at 2^30)
RCeil(a)    == Overridden(a)         \* ceiling, likewise
RVal(a)     == Overridden(a)         \* the value, without tangents
RTan(a, i)  == Overridden(<<a, i>>)  \* i-th tangent
RDir(a, s, i, k) == Overridden(<<a, s, i, k>>) \* value a with speed s in direction i of k
RSum(s)     == Overridden(s)         \* sum of a sequence
RDot(s, t)  == Overridden(<<s, t>>)  \* scalar product of two sequences
RClose(a, b, tol)    == Overridden(<<a, b, tol>>) \* |a - b| <= tol (1 + |b|)
RFirstFar(s, t, tol) == Overridden(<<s, t, tol>>) \* first i with ~RClose(s[i], t[i], tol), 0 if none, -1 if lengths differ
RFloat(a)   == Overridden(a)         \* decimal approximation, for messages only

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RAbs(a) == IF RSign(a) < 0 THEN RNeg(a) ELSE a
RSq(a) == RMul(a, a)
=============================================================================
