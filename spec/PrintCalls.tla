----------------------------- MODULE PrintCalls -----------------------------
(* Recorded texts of result objects (TRACE) against Printed.                                                          *)
EXTENDS Printed, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF PrintedOk(Trace[l]) THEN TRUE ELSE PrintT(<<"BAD", l, ToString(<<ObjVal(Trace[l], Trace[l].pts[1]), EvalExpr(Trace[l].r.s, Trace[l].vars, Trace[l].pts[1], Trace[l].p)>>)>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter = Len(Trace) + 1 /\ PrintT(<<"ACCEPTED", Len(Trace)>>)
=============================================================================
