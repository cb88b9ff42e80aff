------------------------------ MODULE LinearMC ------------------------------
(* All n x n matrices over the field with P elements: the determinant of Linear is the Leibniz sum, and a system has  *)
(* exactly one solution for every right-hand side iff the determinant does not vanish.                                 *)
EXTENDS Linear, TLC, Sequences
CONSTANTS P, N
VARIABLE A
E == {BOfInt(k) : k \in 0..(P - 1)}
p == BOfInt(P)
Vecs == [1..N -> E]
Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
Inv(f) == Cardinality({ij \in (1..N) \X (1..N) : ij[1] < ij[2] /\ f[ij[1]] > f[ij[2]]})
Prod(f) == LET S[k \in 0..N] == IF k = 0 THEN "1" ELSE FMul(S[k - 1], A[k][f[k]], p) IN S[N]
RECURSIVE SumP(_)
SumP(S) == IF S = {} THEN "0" ELSE LET f == CHOOSE f \in S : TRUE IN FAdd(IF Inv(f) % 2 = 0 THEN Prod(f) ELSE FNeg(Prod(f), p), SumP(S \ {f}), p)
Init == A \in [1..N -> Vecs]
Next == UNCHANGED A
Spec == Init /\ [][Next]_A
Leibniz == Det(A, p) = SumP(Perms)
Solvable == Regular(A, p) <=> \A b \in Vecs : Cardinality({x \in Vecs : MVec(A, x, p) = b}) = 1
=============================================================================
