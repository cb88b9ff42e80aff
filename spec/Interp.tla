------------------------------- MODULE Interp -------------------------------
(* Stand-alone interpolation as a dialogue: the interpolator asks for values (or is given points), and reports          *)
(* completion with a function.  The function behind the values is known to the specification, which decides every value, *)
(* the moment of completion and the reported function.  Functions: PolyZ (QPoly of <<num, den, exponents>> terms).       *)
EXTENDS PolyZ, Primes, TLC
MaxN(S) == CHOOSE m \in S : \A k \in S : k <= m
QTermsMod(s, p) == {<<s[i][3], BMulM(s[i][1], BInvM(s[i][2], p), p)>> : i \in 1..Len(s)}
ValMod(s, x, p) == PEvalM(QTermsMod(s, p), x, p)
FFSet(s) == Norm({<<s[i][1], s[i][2]>> : i \in 1..Len(s)})
UniDeg(s) == MaxN({0} \cup {s[i][3][1] : i \in 1..Len(s)})
\* the number of points after which Thiele's fraction of a function of these degrees is determined and confirmed
ThielePoints(dn, dd) == MaxN({2 * dn + 1, 2 * dd + 2})
\* N/D (mod p) is the function num/den
SameFn(N, D, num, den, p) ==
  LET A == QTermsMod(num, p) B == QTermsMod(den, p)
  IN D # {} /\ PModP(PMul(N, B), p) = PModP(PMul(A, D), p)
Tot(e) == LET S[k \in 0..Len(e)] == IF k = 0 THEN 0 ELSE S[k - 1] + e[k] IN S[Len(e)]
\* homogeneous form of the given degree, one variable more at the front
Hom(A, D) == {<<<<D - Tot(t[1])>> \o t[1], t[2]>> : t \in Norm(A)}
\* the same polynomial over the rationals, every coefficient in lowest terms
QSame(a, b) == LET X == QPoly(a) Y == QPoly(b) IN PScale(X.p, Y.d) = PScale(Y.p, X.d)
Canon(a) == \A i \in 1..Len(a) : CanonQ(a[i][1], a[i][2])
=============================================================================
