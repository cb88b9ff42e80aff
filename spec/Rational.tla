------------------------------ MODULE Rational ------------------------------
(* Chinese remaindering and rational reconstruction as the library promises them (integers of any size).            *)
EXTENDS BigNum
Image(n, d, a, m) == BGcd(d, m) = "1" /\ BMod(BSub(n, BMul(a, d)), m) = "0"
Lowest(n, d) == BLt("0", d) /\ BGcd(n, d) = "1"

\* r: the pair returned for the residues x1 mod m1 and x2 mod m2 of coprime moduli
CrtOk(x1, m1, x2, m2, r) ==
  r[2] = BMul(m1, m2) /\ BLe("0", r[1]) /\ BLt(r[1], r[2]) /\ BMod(r[1], m1) = x1 /\ BMod(r[1], m2) = x2

RECURSIVE Bits(_)
Bits(m) == IF m = "0" THEN 0 ELSE 1 + Bits(BDiv(m, "2"))
\* numbers that each method has to find
WangMust(n, d, m) == BLt(BMul("2", BMul(n, n)), m) /\ BLt(BMul("2", BMul(d, d)), m)
MqrrMust(n, d, m) ==
  LET T == BMul("1024", BOfInt(Bits(m)))
      nd == BMul(BAbs(n), d)
  IN IF n = "0" THEN BLt(T, m) /\ d = "1" ELSE BLt(BMul("4", BMul(nd, nd)), m) /\ BLt(BMul("2", BMul(T, nd)), m)
Must(method, n, d, m) == IF method = "wang" THEN WangMust(n, d, m) ELSE MqrrMust(n, d, m)

\* what a method may report: Wang's method only numbers within its bounds, the other only if the quotient exceeds T
Bound(method, n, d, m) ==
  IF method = "wang" THEN BLe(BMul("2", BMul(n, n)), m) /\ BLe(BMul("2", BMul(d, d)), m)
  ELSE LET T == BMul("1024", BOfInt(Bits(m))) IN IF n = "0" THEN BLt(T, m) ELSE BLt(BMul(T, BMul(BAbs(n), d)), m)
\* r = <<found, n, d>>; w: a number known to have image a (<<>> if none is known)
ReconstructOk(method, a, m, w, r) ==
  /\ r[1] = "1" => Lowest(r[2], r[3]) /\ Image(r[2], r[3], a, m) /\ Bound(method, r[2], r[3], m)
  /\ (w # <<>> /\ Lowest(w[1], w[2]) /\ Image(w[1], w[2], a, m) /\ Must(method, w[1], w[2], m)) => r = <<"1", w[1], w[2]>>

\* for small moduli the number is searched among all candidates
SmallOk(method, a, m, r) ==
  LET M == BToInt(m)
      B == {k \in 0..M : 2 * k * k < M}
      C == {w \in {<<BOfInt(n), BOfInt(d)>> : n \in B \cup {-k : k \in B}, d \in B \ {0}} : Lowest(w[1], w[2]) /\ Image(w[1], w[2], a, m) /\ Must(method, w[1], w[2], m)}
  IN ReconstructOk(method, a, m, <<>>, r) /\ \A w \in C : r = <<"1", w[1], w[2]>>
=============================================================================
