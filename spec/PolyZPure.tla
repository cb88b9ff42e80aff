-------------------------------- MODULE PolyZPure --------------------------------
(* Multivariate polynomials with integer coefficients of any size, as sets of <<exponent tuple, coefficient>>   *)
(* with pairwise different exponents and non-zero coefficients, and rational functions as pairs of such.         *)
(* (PMul ... PEvalM are evaluated by the Java overrides; PolyZTest compares them with these definitions.)         *)
EXTENDS BigNumPure, FiniteSets

RECURSIVE BSumSet(_, _)
BSumSet(S, f) == IF S = {} THEN "0" ELSE LET s == CHOOSE s \in S : TRUE IN BAdd(f[s], BSumSet(S \ {s}, f))

Norm(P) == {t \in P : t[2] # "0"}
Exps(P) == {t[1] : t \in P}
Coef(P, e) == IF \E t \in P : t[1] = e THEN (CHOOSE t \in P : t[1] = e)[2] ELSE "0"

ESum(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
PMul(P, Q) ==
  LET Es == {ESum(x[1], y[1]) : x \in P, y \in Q}
      f(e) == BSumSet({xy \in P \X Q : ESum(xy[1][1], xy[2][1]) = e}, [xy \in P \X Q |-> BMul(xy[1][2], xy[2][2])])
  IN Norm({<<e, f(e)>> : e \in Es})
PAdd(P, Q) == Norm({<<e, BAdd(Coef(P, e), Coef(Q, e))>> : e \in Exps(P) \cup Exps(Q)})
PScale(P, c) == Norm({<<t[1], BMul(t[2], c)>> : t \in P})
PModP(P, p) == Norm({<<t[1], BMod(t[2], p)>> : t \in P})

RECURSIVE MonoM(_, _, _, _)
MonoM(e, x, k, m) == IF k = 0 THEN BMod("1", m) ELSE BMulM(BPowM(x[k], BOfInt(e[k]), m), MonoM(e, x, k - 1, m), m)
PEvalM(P, x, m) == BMod(BSumSet(P, [t \in P |-> BMulM(t[2], MonoM(t[1], x, Len(t[1]), m), m)]), m)

PNeg(P) == PScale(P, "-1")
PZero == {}
PConst(n, c) == Norm({<<[k \in 1..n |-> 0], c>>})

-----------------------------------------------------------------------------
(* Polynomials over the rationals, as logged by the harness: sequences of <<num, den, exponents>> (a monomial may *)
(* occur several times).  They are represented by an integer polynomial and a common denominator.                 *)
BLcm(a, b) == BDiv(BMul(a, b), BGcd(a, b))
RECURSIVE LcmDen(_, _)
LcmDen(s, k) == IF k = 0 THEN "1" ELSE BLcm(BAbs(s[k][2]), LcmDen(s, k - 1))
ExactDiv(a, b) == IF BLt(b, "0") THEN BNeg(BDiv(a, BNeg(b))) ELSE BDiv(a, b)
RECURSIVE SumTerms(_, _, _)
SumTerms(s, L, k) == IF k = 0 THEN {} ELSE PAdd(SumTerms(s, L, k - 1), Norm({<<s[k][3], BMul(s[k][1], ExactDiv(L, s[k][2]))>>}))
QPoly(s) == LET L == LcmDen(s, Len(s)) IN [p |-> SumTerms(s, L, Len(s)), d |-> L]

\* rational functions [num, den: such sequences]; a/b = c/d as functions over the rationals
RFZ(f) == LET N == QPoly(f.num) D == QPoly(f.den) IN [n |-> PScale(N.p, D.d), d |-> PScale(D.p, N.d)]
RFSame(a, b) == a.d # {} /\ b.d # {} /\ PMul(a.n, b.d) = PMul(b.n, a.d)
RFMulZ(a, b) == [n |-> PMul(a.n, b.n), d |-> PMul(a.d, b.d)]

\* canonical rational coefficient: lowest terms, positive denominator
CanonQ(n, d) == BLt("0", d) /\ BGcd(n, d) = "1"
=============================================================================
