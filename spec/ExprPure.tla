-------------------------------- MODULE ExprPure --------------------------------
(* Meaning of the expressions the library's parser accepts: sums of products of powers with the usual precedence,   *)
(* a leading sign (or "+-", "-+", both read as minus) applies to the whole product that follows, so -x^2 = -(x^2);   *)
(* exponents are integers, negative ones in parentheses; numbers may be arbitrarily long; the value is taken in the  *)
(* field with p elements.  "undef": a divisor (or base of a negative power) is zero there.  "malformed": not an      *)
(* expression of this language.  (EvalExpr is evaluated by the Java override; ExprTest compares it with this text.)  *)
EXTENDS Field, Sequences, Integers

DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE "end"
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, C) == IF At(s, i) \in C THEN RunEnd(s, i + 1, C) ELSE i          \* first position not in C
RECURSIVE Word(_, _, _)
Word(s, i, j) == IF i >= j THEN "" ELSE s[i] \o Word(s, i + 1, j)

Bad == <<"malformed", 0>>
IsBad(r) == r[2] = 0
U(a, b, v) == IF a = "undef" \/ b = "undef" THEN "undef" ELSE v
Power(b, e, p) == IF b = "undef" THEN "undef" ELSE IF BLt(e, "0") /\ b = "0" THEN "undef" ELSE FPow(b, e, p)

\* <<integer, next position>>
Exponent(s, i) ==
  LET n(k, j) == IF k = j THEN Bad ELSE <<Word(s, k, j), j>>
  IN IF At(s, i) # "(" THEN n(i, RunEnd(s, i, DigitSet))
     ELSE LET sg == At(s, i + 1)
              k == IF sg \in {"+", "-"} THEN i + 2 ELSE i + 1
              r == n(k, RunEnd(s, k, DigitSet))
          IN IF IsBad(r) \/ At(s, r[2]) # ")" THEN Bad ELSE <<IF sg = "-" THEN BNeg(r[1]) ELSE r[1], r[2] + 1>>

RECURSIVE Sum(_, _, _, _), MoreSum(_, _, _, _), Prod(_, _, _, _), MoreProd(_, _, _, _), Fact(_, _, _, _), Atom(_, _, _, _)
Atom(s, i, env, p) ==
  IF At(s, i) = "(" THEN LET r == Sum(s, i + 1, env, p) IN IF IsBad(r) \/ At(s, r[2]) # ")" THEN Bad ELSE <<r[1], r[2] + 1>>
  ELSE IF At(s, i) \in DigitSet THEN LET j == RunEnd(s, i, DigitSet) IN <<FNew(Word(s, i, j), p), j>>
  ELSE IF At(s, i) \in Letters THEN LET j == RunEnd(s, i, Letters \cup DigitSet) w == Word(s, i, j) IN IF w \in DOMAIN env THEN <<env[w], j>> ELSE Bad
  ELSE Bad
Fact(s, i, env, p) ==
  LET b == Atom(s, i, env, p)
  IN IF IsBad(b) \/ At(s, b[2]) # "^" THEN b
     ELSE LET e == Exponent(s, b[2] + 1) IN IF IsBad(e) THEN Bad ELSE <<Power(b[1], e[1], p), e[2]>>
MoreProd(s, a, env, p) ==      \* a: the product so far
  IF IsBad(a) \/ At(s, a[2]) \notin {"*", "/"} THEN a
  ELSE LET f == Fact(s, a[2] + 1, env, p)
       IN IF IsBad(f) THEN Bad
          ELSE MoreProd(s, <<IF At(s, a[2]) = "*" THEN U(a[1], f[1], FMul(a[1], f[1], p)) ELSE IF f[1] = "0" THEN "undef" ELSE U(a[1], f[1], FDiv(a[1], f[1], p)), f[2]>>, env, p)
Prod(s, i, env, p) == MoreProd(s, Fact(s, i, env, p), env, p)
SignEnd(s, i) == IF At(s, i) \in {"+", "-"} THEN IF At(s, i + 1) \in {"+", "-"} /\ At(s, i + 1) # At(s, i) THEN i + 2 ELSE i + 1 ELSE i
MoreSum(s, a, env, p) ==
  IF IsBad(a) \/ At(s, a[2]) \notin {"+", "-"} THEN a
  ELSE LET t == Prod(s, SignEnd(s, a[2]), env, p)
           m == IF SignEnd(s, a[2]) = a[2] + 2 THEN TRUE ELSE At(s, a[2]) = "-"
       IN IF IsBad(t) THEN Bad ELSE MoreSum(s, <<U(a[1], t[1], IF m THEN FSub(a[1], t[1], p) ELSE FAdd(a[1], t[1], p)), t[2]>>, env, p)
Sum(s, i, env, p) ==
  LET j == SignEnd(s, i)
      t == Prod(s, j, env, p)
      m == IF j = i + 2 THEN TRUE ELSE At(s, i) = "-" /\ j = i + 1
  IN IF IsBad(t) THEN Bad ELSE MoreSum(s, <<IF m THEN U(t[1], t[1], FNeg(t[1], p)) ELSE t[1], t[2]>>, env, p)

\* value of expression x (a string) where variable vars[k] has the value vals[k]
EvalExpr(x, vars, vals, p) ==
  LET s == Chars(x)
      env == [w \in {vars[k] : k \in 1..Len(vars)} |-> vals[CHOOSE k \in 1..Len(vars) : vars[k] = w]]
      r == Sum(s, 1, env, p)
  IN IF IsBad(r) \/ r[2] # Len(s) + 1 THEN "malformed" ELSE r[1]
=============================================================================
