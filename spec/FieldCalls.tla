------------------------------ MODULE FieldCalls ------------------------------
(* Recorded calls of the library's field arithmetic (TRACE) against Field.  Every call that differs is printed.    *)
EXTENDS Field, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Expected(c) == IF c.k = "S" THEN Scalar(c.op, c.p, c.a) ELSE Vector(c.op, c.n, c.p, c.a)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF Expected(Trace[l]) = Trace[l].r THEN TRUE ELSE PrintT(<<"BAD", l, ToString(Expected(Trace[l]))>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter = Len(Trace) + 1 /\ PrintT(<<"ACCEPTED", Len(Trace)>>)
=============================================================================
