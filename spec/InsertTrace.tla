------------------------------ MODULE InsertTrace ------------------------------
(* Checks recorded runs of the insertion tool and its parser against Insert.  Lines: "new" [vars, fams], "amp" [text, ts], *)
(* "table" [text, rs] (input files, without white space; ts and rs are what they say), "bad" (input that has to be         *)
(* refused), "basis" [ms], "text" [m, x] (coefficient as text), "val" [m, p, w, vals, r] (values of the black box, one per *)
(* lane), "out" [skip, ts] (the file of results: sum of functions with coefficients), "fin" [ok] (end of the run).         *)
EXTENDS Insert, Parser, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, vars, bad, basis
tvars == <<ivars, l, vars, bad, basis>>
E == Trace[l]
Report(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"BAD", l, why>>)
\* the text of what was read
TermText(t) == t[1] \o t[2] \o (IF t[3] = "" THEN "" ELSE "*" \o t[3])
Text(ts) == LET s[k \in 0..Len(ts)] == IF k = 0 THEN "" ELSE s[k - 1] \o TermText(ts[k]) IN s[Len(ts)]
RuleText(r) == r[1] \o "->" \o (IF r[2] = <<>> THEN "0" ELSE Text(r[2]))
TableText(rs) == LET s[k \in 0..Len(rs)] == IF k = 0 THEN "" ELSE s[k - 1] \o (IF k > 1 THEN "," ELSE "") \o RuleText(rs[k]) IN s[Len(rs)]
\* values
V(t, vals, p) == LET c == IF t[3] = "" THEN "1" ELSE EvalExpr(t[3], vars, vals, p) IN
                 IF c = "undef" \/ c = "malformed" THEN c ELSE IF t[1] = "-" THEN FNeg(c, p) ELSE c
Odd(c) == c \in {"undef", "malformed"}
Coef(m, vals, p) == LET W(t) == V(t, vals, p)
                        A(a, b) == IF Odd(a) \/ Odd(b) THEN "undef" ELSE FAdd(a, b, p)
                        M(a, b) == IF Odd(a) \/ Odd(b) THEN "undef" ELSE FMul(a, b, p)
                    IN Total(m, W, A, M, "0")
SumOf(m, ts, vals, p) == LET W(t) == V(t, vals, p)
                             A(a, b) == IF Odd(a) \/ Odd(b) THEN "undef" ELSE FAdd(a, b, p)
                         IN In(ts, m, W, A, "0")
Same(a, b) == Odd(a) \/ a = b
SamePoints(c(_, _), d(_, _)) == /\ Same(c(EvenPoints(Len(vars), P1), P1), d(EvenPoints(Len(vars), P1), P1))
                                /\ Same(c(OddPoints(Len(vars), P2), P2), d(OddPoints(Len(vars), P2), P2))
New == E.e = "new" /\ vars' = E.vars /\ terms' = <<>> /\ rules' = <<>> /\ refused' = FALSE /\ bad' = FALSE /\ basis' = <<>>
Amp == /\ E.e = "amp" /\ Report(E.text = Text(E.ts), "text of the expression") /\ Expression(E.ts) /\ UNCHANGED <<vars, bad, basis>>
Tab == /\ E.e = "table" /\ Report(E.text = TableText(E.rs), "text of the table")
       /\ (IF refused THEN UNCHANGED ivars ELSE Table(E.rs)) /\ UNCHANGED <<vars, bad, basis>>
Wrong == E.e = "bad" /\ bad' = TRUE /\ UNCHANGED <<ivars, vars, basis>>
Bas == /\ E.e = "basis" /\ basis' = E.ms /\ UNCHANGED <<ivars, vars, bad>>
       /\ Report(Cardinality({E.ms[k] : k \in 1..Len(E.ms)}) = Len(E.ms), "every remaining function appears once")
       /\ Report({E.ms[k] : k \in 1..Len(E.ms)} = Basis, <<"remaining functions", Basis>>)
       /\ Report("same" \in DOMAIN E => E.same = E.ms, "the order is fixed")
Txt == /\ E.e = "text" /\ UNCHANGED <<ivars, vars, bad, basis>>
       /\ Report(SamePoints(LAMBDA v, q : Coef(E.m, v, q), LAMBDA v, q : EvalExpr(E.x, vars, v, q)), <<"coefficient as text", E.m>>)
Val == /\ E.e = "val" /\ UNCHANGED <<ivars, vars, bad, basis>>
       /\ Report(Len(E.r) = 1 /\ \A k \in 1..E.w : LET c == Coef(E.m, LaneVals(E.vals, Len(vars), k), E.p) IN Same(c, E.r[1][k]), <<"value of the coefficient", E.m>>)
\* results: the functions that are not skipped; a coefficient that is zero may be left out
Out == /\ E.e = "out" /\ UNCHANGED <<ivars, vars, bad, basis>>
       /\ LET S == {E.skip[k] : k \in 1..Len(E.skip)} IN
          /\ Report(Fns(E.ts) \subseteq Basis \ S /\ Cardinality(Fns(E.ts)) = Len(E.ts), "every remaining function appears at most once in the result")
          /\ \A k \in 1..Len(E.ts) : Report(SamePoints(LAMBDA v, q : "0", LAMBDA v, q : EvalExpr("0*" \o E.ts[k][3], vars, v, q)), <<"what follows the function is one factor", E.ts[k][2]>>)
          /\ \A m \in Basis \ S : Report(SamePoints(LAMBDA v, q : Coef(m, v, q), LAMBDA v, q : SumOf(m, E.ts, v, q)), <<"coefficient in the result", m>>)
\* files that were merged: the sum of what they say
Merged == /\ E.e = "merged" /\ UNCHANGED <<ivars, vars, bad, basis>>
          /\ \A m \in Fns(terms) \cup Fns(E.ts) : Report(SamePoints(LAMBDA v, q : SumOf(m, terms, v, q), LAMBDA v, q : SumOf(m, E.ts, v, q)), <<"coefficient in the merged file", m>>)
Fin == /\ E.e = "fin" /\ UNCHANGED <<ivars, vars, bad, basis>>
       /\ Report(E.ok = (~bad /\ ~refused), IF bad \/ refused THEN "the input has to be refused" ELSE "the input is valid")
Init == InsertInit /\ l = 1 /\ vars = <<>> /\ bad = FALSE /\ basis = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Amp \/ Tab \/ Wrong \/ Bas \/ Txt \/ Val \/ Out \/ Merged \/ Fin)
Spec == Init /\ [][Next]_tvars
Complete == TLCGet("stats").diameter = Len(Trace) + 1 /\ PrintT(<<"ACCEPTED", Len(Trace)>>)
===============================================================================
