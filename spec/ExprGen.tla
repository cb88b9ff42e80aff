------------------------------- MODULE ExprGen -------------------------------
(* The language of Expr as a generator: every behaviour writes one expression token by token.  TLC enumerates all    *)
(* expressions of up to MaxTok tokens; they are the inputs the real parser is given.                                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxTok, Operands, Exps
VARIABLES s, d, n, w, pw          \* text, open parentheses, tokens, what may follow, the last factor has an exponent
vars == <<s, d, n, w, pw>>
Init == s = "" /\ d = 0 /\ n = 0 /\ w = "start" /\ pw = FALSE
Put(t, x, p) == n < MaxTok /\ n' = n + 1 /\ s' = s \o t /\ w' = x /\ pw' = p
Next == \/ w \in {"start", "nosign"} /\ \E t \in Operands : Put(t, "op", FALSE) /\ d' = d
        \/ w \in {"start", "nosign"} /\ n + 2 < MaxTok /\ Put("(", "start", FALSE) /\ d' = d + 1
        \/ w = "start" /\ \E t \in {"-", "+"} : Put(t, "nosign", FALSE) /\ d' = d
        \/ w = "op" /\ d > 0 /\ Put(")", "op", FALSE) /\ d' = d - 1
        \/ w = "op" /\ n + 1 < MaxTok /\ \E t \in {"+", "-", "*", "/", "+-"} : Put(t, "nosign", FALSE) /\ d' = d
        \/ w = "op" /\ ~pw /\ \E t \in Exps : Put("^" \o t, "op", TRUE) /\ d' = d
Spec == Init /\ [][Next]_vars
Show == IF w = "op" /\ d = 0 THEN PrintT(<<"X", s>>) ELSE TRUE
=============================================================================
