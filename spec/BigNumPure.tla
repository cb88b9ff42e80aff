------------------------------- MODULE BigNumPure -------------------------------
(* Integers of arbitrary size written as decimal strings ("-12", "0", ...).  TLC's own integers have 32 bits;  *)
(* primes and coefficients of the system have 63 bits and more.  The definitions below are the meaning of the   *)
(* operators; TLC evaluates them through the Java overrides in java/ffverif/Ov.java, which BigNumTest compares   *)
(* with these definitions (module BigNumPure is this module under another name, without overrides).             *)
EXTENDS Integers, Sequences

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1

Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]

RECURSIVE NatOf(_, _)
NatOf(s, k) == IF k = 0 THEN 0 ELSE 10 * NatOf(s, k - 1) + DigitVal(SubSeq(s, k, k))
BToInt(s) == IF SubSeq(s, 1, 1) = "-" THEN -NatOf(SubSeq(s, 2, Len(s)), Len(s) - 1) ELSE NatOf(s, Len(s))

RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN Digits[n + 1] ELSE NatStr(n \div 10) \o Digits[(n % 10) + 1]
BOfInt(n) == IF n < 0 THEN "-" \o NatStr(-n) ELSE NatStr(n)

BAdd(x, y) == BOfInt(BToInt(x) + BToInt(y))
BSub(x, y) == BOfInt(BToInt(x) - BToInt(y))
BMul(x, y) == BOfInt(BToInt(x) * BToInt(y))
\* for y > 0: x = y * BDiv(x, y) + BMod(x, y) with 0 <= BMod(x, y) < y
BDiv(x, y) == BOfInt(BToInt(x) \div BToInt(y))
BMod(x, y) == BOfInt(BToInt(x) % BToInt(y))
BCmp(x, y) == IF BToInt(x) < BToInt(y) THEN -1 ELSE IF BToInt(x) = BToInt(y) THEN 0 ELSE 1

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
BGcd(x, y) == BOfInt(Gcd(Abs(BToInt(x)), Abs(BToInt(y))))

RECURSIVE BPow(_, _)
BPow(x, k) == IF k = 0 THEN "1" ELSE BMul(x, BPow(x, k - 1))

\* arithmetic modulo m > 0
BAddM(x, y, m) == BMod(BAdd(x, y), m)
BSubM(x, y, m) == BMod(BSub(x, y), m)
BMulM(x, y, m) == BMod(BMul(x, y), m)
RECURSIVE BPowM(_, _, _)
BPowM(x, e, m) == IF e = "0" THEN BMod("1", m) ELSE BMulM(x, BPowM(x, BSub(e, "1"), m), m)
\* the inverse of x modulo m if there is one, "0" otherwise
BInvM(x, m) ==
  LET M == BToInt(m)
      S == {k \in 0..(M - 1) : (k * (BToInt(x) % M)) % M = 1 % M}
  IN IF S = {} THEN "0" ELSE BOfInt(CHOOSE k \in S : TRUE)

BNeg(x) == BSub("0", x)
BLt(x, y) == BCmp(x, y) < 0
BLe(x, y) == BCmp(x, y) <= 0
BAbs(x) == IF BLt(x, "0") THEN BNeg(x) ELSE x
=============================================================================
