-------------------------------- MODULE Insert --------------------------------
(* Insertion of replacement tables: an expression is a sum of functions with coefficients; a table replaces functions by  *)
(* sums of other functions.  Each function of the expression is replaced once by its rule (Mathematica's /.); what        *)
(* remains is a sum over a basis.  A term is <<sign, function, coefficient>>.                                             *)
EXTENDS Integers, Sequences, FiniteSets, Folds
VARIABLES terms,      \* the terms of the expression
          rules,      \* function of the expression -> its replacement
          refused     \* the input was refused
ivars == <<terms, rules, refused>>
Fns(ts) == {ts[k][2] : k \in 1..Len(ts)}
InsertInit == terms = <<>> /\ rules = <<>> /\ refused = FALSE
Expression(ts) == terms' = terms \o ts /\ UNCHANGED <<rules, refused>>
\* rs: sequence of <<function, replacement>>; rules for functions that do not occur are of no interest
Needed(rs) == {k \in 1..Len(rs) : rs[k][1] \in Fns(terms)}
Clash(rs) == \E k \in Needed(rs) : rs[k][1] \in DOMAIN rules \/ \E q \in Needed(rs) : q # k /\ rs[q][1] = rs[k][1]
Table(rs) == IF Clash(rs) THEN refused' = TRUE /\ UNCHANGED <<terms, rules>>
             ELSE /\ rules' = [f \in DOMAIN rules \cup {rs[k][1] : k \in Needed(rs)} |->
                                IF f \in DOMAIN rules THEN rules[f] ELSE rs[CHOOSE k \in Needed(rs) : rs[k][1] = f][2]]
                  /\ UNCHANGED <<terms, refused>>
\* the functions that remain
Basis == UNION {IF f \in DOMAIN rules THEN Fns(rules[f]) ELSE {f} : f \in Fns(terms)}
Fold(Op(_, _), z, s) == MapThenFoldSet(LAMBDA k, a : Op(a, s[k]), z, LAMBDA k : k, LAMBDA S : CHOOSE k \in S : TRUE, DOMAIN s)
\* coefficient of m in a sum of terms, and in the expression after the insertion; V: value of <<sign, function, coefficient>>
In(ts, m, V(_), Add(_, _), zero) == Fold(LAMBDA a, t : IF t[2] = m THEN Add(a, V(t)) ELSE a, zero, ts)
Total(m, V(_), Add(_, _), Mul(_, _), zero) ==
  Fold(LAMBDA a, t : IF t[2] \in DOMAIN rules THEN Add(a, Mul(V(t), In(rules[t[2]], m, V, Add, zero)))
                     ELSE IF t[2] = m THEN Add(a, V(t)) ELSE a, zero, terms)
===============================================================================
