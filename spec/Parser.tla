-------------------------------- MODULE Parser --------------------------------
(* A collection of expressions: what a user of the library's parser sees.                                            *)
(*   coll   the expressions in the order in which evaluations return their values                                    *)
(*   vars   the declared variables                                                                                   *)
(*   p      the current prime field                                                                                  *)
(* Precomputed tokens belong to one field (prefield) and to the first npre expressions of the collection; without    *)
(* the reverse Polish form (rpn = FALSE, dropped when tokens are precomputed unless kept) only they can be evaluated. *)
EXTENDS Expr, TLC

EvenPoints(m, p) == [k \in 1..m |-> BMod(BAdd(BPowM("7", BOfInt(k + 2), p), "12345678901234567"), p)]
OddPoints(m, p) == [k \in 1..m |-> BMod(BAdd(BPowM("5", BOfInt(3 * k + 41), p), "98765432109876543"), p)]
P1 == "9223372036854775783"
P2 == "9223372036854774319"
\* two expressions denote the same function: decided by their values at two points of two large fields
SameFn(a, b, vars) ==
  /\ EvalExpr(a, vars, EvenPoints(Len(vars), P1), P1) = EvalExpr(b, vars, EvenPoints(Len(vars), P1), P1)
  /\ EvalExpr(a, vars, OddPoints(Len(vars), P2), P2) = EvalExpr(b, vars, OddPoints(Len(vars), P2), P2)
Known(x, coll, vars) == \E k \in 1..Len(coll) : SameFn(x, coll[k], vars)

\* positions kept by trim: increasing, from zero
RECURSIVE KeepSeq(_, _, _)
KeepSeq(coll, K, k) == IF k > Len(coll) THEN <<>> ELSE (IF (k - 1) \in K THEN <<coll[k]>> ELSE <<>>) \o KeepSeq(coll, K, k + 1)
KeptBefore(K, k) == Cardinality({j \in K : j < k})

\* values an evaluation returns: one sequence of lanes per expression; lane values as the harness passed them
LaneVals(vals, nv, l) == [k \in 1..nv |-> vals[(l - 1) * nv + k]]
Value(x, vars, vals, l, p) == EvalExpr(x, vars, LaneVals(vals, Len(vars), l), p)
Agrees(v, r) == v = "undef" \/ v = r
=============================================================================
