------------------------------ MODULE TraceObj ------------------------------
(***************************************************************************)
(* Validates what read_obj and save_obj did against Obj: tr.op "read"      *)
(* (tr.lines was read as tr.v, tr.f) or "save" (tr.v, tr.f were written as *)
(* tr.lines, and read back as tr.bv, tr.bf).                               *)
(***************************************************************************)
EXTENDS Obj, Rat, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, pc
vars == <<t, pc>>
None == <<>>
C(clause, b) == IF b THEN None ELSE <<[clause |-> clause, at |-> 0]>>
\* decimals are written with six digits
Written(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN b : Len(a[i]) = 3 /\ \A k \in 1..3 : RLe(RAbs(RSub(a[i][k], b[i][k])), "51/100000000")
\* tr.num maps the texts of the numbers of the file to the numbers they denote
Values(tr, v) == [i \in DOMAIN v |-> [k \in 1..3 |-> tr.num[v[i][k]]]]

Judge(tr) ==
    IF tr.status # "ok" THEN C("status " \o tr.status, FALSE) ELSE
    LET r == Read(tr.lines) IN
    IF tr.op = "read" THEN C("vertices", tr.v = Values(tr, r.v)) \o C("faces", tr.f = r.f)
    ELSE C("faces written", r.f = tr.f) \o C("vertices written", Written(Values(tr, r.v), tr.v))
         \o C("faces read back", tr.bf = tr.f) \o C("vertices read back", Written(tr.bv, tr.v))
         \o C("an argument changed", tr.kept)

Init == t \in 1..Len(Traces) /\ pc = "init"
Next == /\ pc = "init" /\ pc' = "over" /\ t' = t
        /\ LET tr == Traces[t] IN PrintT("VERDICT" \o ToJson([t |-> t, bad |-> Judge(tr), lines |-> Len(tr.lines)]))
=============================================================================
