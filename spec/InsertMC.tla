------------------------------- MODULE InsertMC -------------------------------
(* The meaning of an insertion: under every interpretation of the functions (by numbers modulo Q) which satisfies the     *)
(* rules, the expression and its sum over the basis have the same value; the order and the files in which rules are given *)
(* make no difference; a basis function is not replaced any further only if it has no rule or stems from one.             *)
EXTENDS Insert
CONSTANTS F, Q, MaxTerms, MaxRules, MaxRhs
VARIABLE given      \* all rules given so far
Coef == 1..(Q - 1)
Seqs(S, m) == UNION {[1..k -> S] : k \in 0..m}
Term == {<<"+">>} \X F \X Coef
Init == InsertInit /\ given = <<>>
V(t) == t[3]
Add(a, b) == (a + b) % Q
Mul(a, b) == (a * b) % Q
Read == /\ terms = <<>> /\ \E ts \in Seqs(Term, MaxTerms) : ts # <<>> /\ Expression(ts)
        /\ UNCHANGED given
Rule == /\ terms # <<>> /\ ~refused /\ Len(given) < MaxRules
        /\ \E f \in F, ts \in Seqs(Term, MaxRhs) : Table(<<<<f, ts>>>>) /\ given' = Append(given, <<f, ts>>)
Next == Read \/ Rule
Spec == Init /\ [][Next]_<<ivars, given>>
Value(ts, I) == LET s[k \in 0..Len(ts)] == IF k = 0 THEN 0 ELSE (s[k - 1] + ts[k][3] * I[ts[k][2]]) % Q IN s[Len(ts)]
Satisfies(I) == \A f \in DOMAIN rules : I[f] = Value(rules[f], I)
SumOver(B, I) == MapThenFoldSet(Add, 0, LAMBDA m : Mul(Total(m, V, Add, Mul, 0), I[m]), LAMBDA S : CHOOSE x \in S : TRUE, B)
SameValue == \A I \in [F -> 0..(Q - 1)] : Satisfies(I) => Value(terms, I) = SumOver(Basis, I)
NothingElse == \A m \in F \ Basis : Total(m, V, Add, Mul, 0) = 0
Refused == refused <=> \E i, j \in 1..Len(given) : i # j /\ given[i][1] = given[j][1] /\ given[i][1] \in Fns(terms)
===============================================================================
