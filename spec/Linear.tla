------------------------------- MODULE Linear -------------------------------
(* Systems of linear equations over the field with p elements: matrices are sequences of rows of decimal strings.     *)
EXTENDS Field
Dot(u, v, p) == LET S[k \in 0..Len(u)] == IF k = 0 THEN "0" ELSE FAdd(S[k - 1], FMul(u[k], v[k], p), p) IN S[Len(u)]
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
MVec(A, x, p) == [i \in 1..Len(A) |-> Dot(A[i], x, p)]
MMul(A, B, p) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> Dot(A[i], Col(B, j), p)]]
Unit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]

\* determinant by elimination: move the first row with a non-zero leading entry to the top
RECURSIVE Det(_, _)
Det(A, p) ==
  LET n == Len(A)
      S == {i \in 1..n : A[i][1] # "0"}
  IN IF n = 0 THEN BMod("1", p)
     ELSE IF S = {} THEN "0"
     ELSE LET r == CHOOSE i \in S : \A j \in S : i <= j
              B == [i \in 1..n |-> IF i = 1 THEN A[r] ELSE IF i = r THEN A[1] ELSE A[i]]
              inv == FInv(B[1][1], p)
              M == [i \in 1..(n - 1) |-> LET c == FMul(B[i + 1][1], inv, p) IN [j \in 1..(n - 1) |-> FSub(B[i + 1][j + 1], FMul(c, B[1][j + 1], p), p)]]
              D == FMul(B[1][1], Det(M, p), p)
          IN IF r = 1 THEN D ELSE FNeg(D, p)
Regular(A, p) == Det(A, p) # "0"

Lower(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN "1" ELSE IF j < i THEN A[i][j] ELSE "0"]]
Upper(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF j >= i THEN A[i][j] ELSE "0"]]
IsPerm(P, n) == {P[i] : i \in 1..n} = 0..(n - 1)

\* result r of solver op for the regular matrix A and the right-hand side b
SolverOk(op, A, b, p, r) ==
  LET n == Len(A) IN
  CASE op \in {"gauss", "gaussf", "lusolve"} -> Len(r[1]) = n /\ MVec(A, r[1], p) = b
    [] op \in {"inv", "luinv"} -> Len(r) = n /\ MMul(A, r, p) = Unit(n)
    [] op = "lu" -> /\ Len(r[2]) = n + 1 /\ IsPerm(r[2], n)
                    /\ MMul(Lower(r[1]), Upper(r[1]), p) = [i \in 1..n |-> A[r[2][i] + 1]]
    [] op = "ludet" -> r = <<<<Det(A, p)>>>>

\* sum_i c_i * v_i^j = nums[j] for j = 1..m, v_i the value of monomial degs[i] (first power ignored) at val
RECURSIVE MonoVal(_, _, _, _)
MonoVal(e, val, k, p) == IF k = 0 THEN BMod("1", p) ELSE FMul(MonoVal(e, val, k - 1, p), BPowM(val[k], BOfInt(e[k + 1]), p), p)
VandermondeOk(degs, nums, val, p, r) ==
  LET m == Len(degs)
      v == [i \in 1..m |-> MonoVal(degs[i], val, Len(val), p)]
      C(i) == IF \E t \in r : t[1] = degs[i] THEN (CHOOSE t \in r : t[1] = degs[i])[2] ELSE "0"
      c == [i \in 1..m |-> C(i)]
  IN /\ {t[1] : t \in r} \subseteq {degs[i] : i \in 1..m}
     /\ \A j \in 1..m : Dot(c, [i \in 1..m |-> BPowM(v[i], BOfInt(j), p)], p) = nums[j]
VandermondeRegular(degs, val, p) ==
  LET v == [i \in 1..Len(degs) |-> MonoVal(degs[i], val, Len(val), p)]
  IN \A i, j \in 1..Len(degs) : v[i] # "0" /\ (i # j => v[i] # v[j])
=============================================================================
