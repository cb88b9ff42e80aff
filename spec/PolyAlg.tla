------------------------------- MODULE PolyAlg -------------------------------
(* The arithmetic of the library's polynomial and number classes.  Polynomials over the field with p elements are the  *)
(* sets of PolyZ with coefficients 0..p-1; univariate polynomials are sequences of coefficients, constant first.       *)
EXTENDS PolyZ
Terms(s) == {<<s[k][1], s[k][2]>> : k \in 1..Len(s)}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
Canonical(s, p) == Distinct(s) /\ \A k \in 1..Len(s) : BLe("0", s[k][2]) /\ BLt(s[k][2], p)
FF(s) == Norm(Terms(s))                                  \* the value of a stored polynomial
FFAdd(A, B, p) == PModP(PAdd(A, B), p)
FFSub(A, B, p) == PModP(PAdd(A, PNeg(B)), p)
FFMul(A, B, p) == PModP(PMul(A, B), p)
FFScale(A, c, p) == PModP(PScale(A, c), p)
FFMulZ(A, z) == {<<[t[1] EXCEPT ![z] = t[1][z] + 1], t[2]>> : t \in A}
RECURSIVE Tot(_, _)
Tot(e, k) == IF k = 0 THEN 0 ELSE e[k] + Tot(e, k - 1)
Deg(e) == Tot(e, Len(e))
FFHomog(A, D) == {<<<<D - Deg(t[1])>> \o t[1], t[2]>> : t \in A}

\* A(x_1 + s_1, ..., x_n + s_n)
Lin(n, j, s) == Norm({<<[k \in 1..n |-> IF k = j THEN 1 ELSE 0], "1">>, <<[k \in 1..n |-> 0], s>>})
RECURSIVE PPow(_, _, _, _)
PPow(A, e, n, p) == IF e = 0 THEN PConst(n, "1") ELSE FFMul(A, PPow(A, e - 1, n, p), p)
RECURSIVE ShMono(_, _, _, _, _)
ShMono(e, s, j, n, p) == IF j = 0 THEN PConst(n, "1") ELSE FFMul(ShMono(e, s, j - 1, n, p), PPow(Lin(n, j, s[j]), e[j], n, p), p)
RECURSIVE ShAll(_, _, _, _)
ShAll(A, s, n, p) == IF A = {} THEN {} ELSE LET t == CHOOSE t \in A : TRUE IN FFAdd(FFScale(ShMono(t[1], s, n, n, p), t[2], p), ShAll(A \ {t}, s, n, p), p)
FFShift(A, s, n, p) == ShAll(A, s, n, p)
FFEval(A, x, p) == PEvalM(A, x, p)
\* evaluation in the last n - 1 variables: the first power plays no role
FFEvalM(A, x, p) == PEvalM(A, <<"1">> \o x, p)
MaxDegs(A) == {e \in Exps(A) : \A f \in Exps(A) : Deg(f) <= Deg(e)}
MinDegs(A) == {e \in Exps(A) : \A f \in Exps(A) : Deg(f) >= Deg(e)}

-----------------------------------------------------------------------------
\* rational numbers, lowest terms and positive denominator
QNew(n, d) == LET g == BGcd(n, d) s == IF BLt(d, "0") THEN "-1" ELSE "1" IN <<BMul(s, ExactDiv(n, g)), BMul(s, ExactDiv(d, g))>>
QMul(a, b) == QNew(BMul(a[1], b[1]), BMul(a[2], b[2]))
QAdd(a, b) == QNew(BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
QSub(a, b) == QAdd(a, <<BNeg(b[1]), b[2]>>)
QNeg(a) == <<BNeg(a[1]), a[2]>>
\* largest rational number of which both are integer multiples
QGcd(a, b) == QNew(BGcd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
QModP(a, p) == BMulM(a[1], BInvM(a[2], p), p)

-----------------------------------------------------------------------------
\* univariate polynomials: sequences of coefficients, possibly with leading zeros
At(u, k) == IF k < Len(u) THEN u[k + 1] ELSE "0"
UDeg(u) == LET S == {k \in 0..(Len(u) - 1) : u[k + 1] # "0"} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
USame(u, v) == \A k \in 0..(Len(u) + Len(v)) : At(u, k) = At(v, k)
UZero(u) == \A k \in 1..Len(u) : u[k] = "0"
UAdd(u, v, p) == [k \in 1..(Len(u) + Len(v)) |-> BAddM(At(u, k - 1), At(v, k - 1), p)]
USub(u, v, p) == [k \in 1..(Len(u) + Len(v)) |-> BSubM(At(u, k - 1), At(v, k - 1), p)]
UScale(u, c, p) == [k \in 1..Len(u) |-> BMulM(u[k], c, p)]
UMul(u, v, p) == LET C(k) == LET S[j \in 0..k] == BAddM(IF j = 0 THEN "0" ELSE S[j - 1], BMulM(At(u, j), At(v, k - j), p), p) IN S[k]
                 IN [k \in 1..(Len(u) + Len(v)) |-> C(k - 1)]
UTrim(u) == SubSeq(u, 1, UDeg(u) + 1)
URev(u) == LET t == UTrim(u) IN [k \in 1..Len(t) |-> t[Len(t) + 1 - k]]
\* u = q * v + r, deg r < deg v (or r = 0)
DivModOk(u, v, q, r, p) == USame(UAdd(UMul(q, v, p), r, p), u) /\ (UZero(r) \/ UDeg(r) < UDeg(v))
UEval(u, x, p) == LET S[k \in 0..Len(u)] == IF k = 0 THEN "0" ELSE BAddM(S[k - 1], BMulM(u[k], BPowM(x, BOfInt(k - 1), p), p), p) IN S[Len(u)]
RECURSIVE URem(_, _, _)
URem(u, v, p) ==
  LET a == UTrim(u) b == UTrim(v) da == UDeg(a) db == UDeg(b) IN
  IF UZero(a) \/ da < db THEN a
  ELSE LET c == BMulM(a[da + 1], BInvM(b[db + 1], p), p)
           s == [k \in 1..(da + 1) |-> IF k - 1 >= da - db THEN BMulM(c, b[k - da + db], p) ELSE "0"]
           d == [k \in 1..da |-> BSubM(a[k], s[k], p)]
       IN URem(IF da = 0 THEN <<"0">> ELSE d, b, p)
RECURSIVE UGcd(_, _, _)
UGcd(u, v, p) == IF UZero(v) THEN u ELSE UGcd(v, URem(u, v, p), p)
UMonic(u, p) == LET t == UTrim(u) IN UScale(t, BInvM(t[Len(t)], p), p)
\* the product of the linear factors of the roots
RECURSIVE FromRoots(_, _, _)
FromRoots(s, k, p) == IF k = 0 THEN <<"1">> ELSE UMul(FromRoots(s, k - 1, p), <<BSubM("0", s[k], p), "1">>, p)
=============================================================================
