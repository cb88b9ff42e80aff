----------------------------- MODULE BigNumTest -----------------------------
(* Compares the Java overrides of BigNum with the TLA+ definitions (BigNumPure, generated from BigNum.tla) on    *)
(* all small operands, and checks algebraic laws that pin the operators on large operands.                       *)
EXTENDS Integers, Sequences, TLC
B == INSTANCE BigNum
P == INSTANCE BigNumPure

R == -25..25
M == 1..13
S(n) == P!BOfInt(n)
Big == {"9223372036854775783", "-340282366920938463463374607431768211297", "123456789012345678901234567890", "18446744073709551615", "7", "-1", "0"}
Pos == {b \in Big : B!BCmp(b, "0") = 1}

ASSUME \A n \in R \cup {-2147483647, 2147483647, 1000, 99999} : /\ B!BOfInt(n) = P!BOfInt(n) /\ B!BToInt(S(n)) = n /\ P!BToInt(S(n)) = n
ASSUME \A a, b \in R : /\ B!BAdd(S(a), S(b)) = P!BAdd(S(a), S(b)) /\ B!BSub(S(a), S(b)) = P!BSub(S(a), S(b))
                       /\ B!BMul(S(a), S(b)) = P!BMul(S(a), S(b)) /\ B!BCmp(S(a), S(b)) = P!BCmp(S(a), S(b))
                       /\ B!BGcd(S(a), S(b)) = P!BGcd(S(a), S(b))
ASSUME \A a \in R, m \in M : /\ B!BDiv(S(a), S(m)) = P!BDiv(S(a), S(m)) /\ B!BMod(S(a), S(m)) = P!BMod(S(a), S(m))
                             /\ B!BInvM(S(a), S(m)) = P!BInvM(S(a), S(m))
ASSUME \A a, b \in -6..6, m \in M : /\ B!BAddM(S(a), S(b), S(m)) = P!BAddM(S(a), S(b), S(m))
                                    /\ B!BSubM(S(a), S(b), S(m)) = P!BSubM(S(a), S(b), S(m))
                                    /\ B!BMulM(S(a), S(b), S(m)) = P!BMulM(S(a), S(b), S(m))
                                    /\ b >= 0 => B!BPowM(S(a), S(b), S(m)) = P!BPowM(S(a), S(b), S(m))
                                    /\ b >= 0 => B!BPow(S(a), b) = P!BPow(S(a), b)
ASSUME \A s \in {"a", "x1+(y)", "0123456789"} : B!Chars(s) = P!Chars(s)
\* laws on large operands
ASSUME \A a, b, c \in Big : /\ B!BSub(B!BAdd(a, b), b) = a
                            /\ B!BAdd(a, b) = B!BAdd(b, a)
                            /\ B!BMul(a, B!BAdd(b, c)) = B!BAdd(B!BMul(a, b), B!BMul(a, c))
                            /\ B!BMul(a, b) = B!BMul(b, a)
ASSUME \A a \in Big, m \in Pos : LET q == B!BDiv(a, m) r == B!BMod(a, m) IN B!BAdd(B!BMul(q, m), r) = a /\ B!BCmp(r, m) = -1 /\ B!BCmp(r, "-1") = 1
ASSUME \A a \in Big : a = "0" \/ LET p == "9223372036854775783" IN B!BMod(a, p) = "0" \/ B!BMulM(a, B!BInvM(a, p), p) = "1"
\* schoolbook product of two numbers given as base-10^4 limbs agrees with BMul (pins multiplication of long operands)
ASSUME B!BMul("100000000000000000001", "100000000000000000001") = "10000000000000000000200000000000000000001"
ASSUME PrintT(<<"ACCEPTED", 1>>)
=============================================================================
