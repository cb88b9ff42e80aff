----------------------------- MODULE ParserTrace -----------------------------
(* Recorded histories of the real parser (TRACE) against Parser.  Every event the specification does not explain is  *)
(* printed; a history starts with event "new".                                                                       *)
EXTENDS Parser, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, coll, vars, p, eq
V == <<l, coll, vars, p, eq>>
Init == l = 1 /\ coll = <<>> /\ vars = <<>> /\ p = P1 /\ eq = FALSE
E == Trace[l]
Report(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"BAD", l, why>>)
New == E.e = "new" /\ coll' = E.funs /\ vars' = E.vars /\ p' = E.p /\ eq' = E.eq
Prime == E.e = "prime" /\ p' = E.p /\ UNCHANGED <<coll, vars, eq>>
Pre == E.e = "pre" /\ UNCHANGED <<coll, vars, p, eq>>
Size == /\ E.e = "size" /\ UNCHANGED <<coll, vars, p, eq>>
        /\ Report(E.empty = (E.n = 0) /\ (~E.rpn \/ eq \/ E.n = Len(coll)), "size")
Parse == E.e = "parse" /\ coll' = Append(coll, E.x) /\ UNCHANGED <<vars, p, eq>>
\* reverse Polish form handed over from another parser
Rpn == /\ E.e = "rpn" /\ coll' = Append(coll, E.x) /\ UNCHANGED <<vars, p, eq>>
       /\ Report(E.pos = Len(coll), <<"position", Len(coll)>>)
Otf == LET known == eq /\ E.nodup /\ Known(E.x, coll, vars)
       IN /\ E.e = "otf" /\ coll' = (IF known THEN coll ELSE Append(coll, E.x)) /\ UNCHANGED <<vars, p, eq>>
          /\ Report(E.p = p, <<"the current field must stay", p>>)
          /\ Report(E.pos < Len(coll') /\ (IF known THEN SameFn(E.x, coll'[E.pos + 1], vars) ELSE E.pos = Len(coll)), <<"position of an equal function", IF known THEN "known" ELSE Len(coll)>>)
Trim == LET K == {E.keep[k] : k \in 1..Len(E.keep)}
        IN /\ E.e = "trim" /\ coll' = KeepSeq(coll, K, 1) /\ UNCHANGED <<vars, p, eq>>
           /\ Report({<<E.map[k][1], E.map[k][2]>> : k \in 1..Len(E.map)} = {<<i, KeptBefore(K, i)>> : i \in K}, <<"positions", {<<i, KeptBefore(K, i)>> : i \in K}>>)
Ev == /\ E.e = "eval" /\ UNCHANGED <<coll, vars, p, eq>>
      /\ IF Len(E.r) # Len(coll) THEN Report(FALSE, <<"number of values", Len(coll)>>)
         ELSE \A i \in 1..Len(coll), k \in 1..E.w : LET v == Value(coll[i], vars, E.vals, k, p) IN Report(Agrees(v, E.r[i][k]), <<"value", i, k, coll[i], v, E.r[i][k]>>)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Prime \/ Pre \/ Size \/ Parse \/ Rpn \/ Otf \/ Trim \/ Ev)
Spec == Init /\ [][Next]_V
Complete == TLCGet("stats").diameter = Len(Trace) + 1 /\ PrintT(<<"ACCEPTED", Len(Trace)>>)
=============================================================================
