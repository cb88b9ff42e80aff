------------------------------- MODULE Shift -------------------------------
(* The search for a sparse shift.  A candidate is a set of variables which are shifted.  A function can be normalised *)
(* under a candidate when its numerator or its denominator (of the reduced form) keeps a constant: when it has a       *)
(* monomial that contains shifted variables only.  A function is given by the supports of its monomials.               *)
EXTENDS Integers, Sequences, FiniteSets
Works(S, supports) == supports = {} \/ \E m \in supports : m \subseteq S
WorksAll(S, fs) == \A i \in DOMAIN fs : Works(S, fs[i])
\* P may be tried after the candidates in `tried` (a set): a new one with as few variables as possible
NextOk(P, tried, n) == /\ P \notin tried
                       /\ \A Q \in SUBSET (1..n) : Q \notin tried => Cardinality(P) <= Cardinality(Q)
\* a sequence that lists all candidates in an allowed order
RECURSIVE SeqOk(_, _, _, _)
SeqOk(s, k, tried, n) == IF k > Len(s) THEN TRUE ELSE NextOk(s[k], tried, n) /\ SeqOk(s, k + 1, tried \cup {s[k]}, n)
Ones(v) == {q \in 1..Len(v) : v[q] = 1}
\* the rule of the library: the next tuple of zeros and ones in lexicographic order with as many ones, or the first with one more
RECURSIVE Num(_, _)
Num(v, k) == IF k = 0 THEN 0 ELSE 2 * Num(v, k - 1) + v[k]
Tuples(n) == [1..n -> {0, 1}]
LibNext(v) ==
  LET n == Len(v)
      same == {w \in Tuples(n) : Cardinality(Ones(w)) = Cardinality(Ones(v)) /\ Num(w, n) > Num(v, n)}
      more == {w \in Tuples(n) : Cardinality(Ones(w)) = Cardinality(Ones(v)) + 1}
      S == IF same # {} THEN same ELSE more
  IN IF S = {} THEN <<>> ELSE CHOOSE w \in S : \A u \in S : Num(w, n) <= Num(u, n)
=============================================================================
