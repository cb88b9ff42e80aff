----------------------------- MODULE RationalMC -----------------------------
(* The two methods as Euclidean transition systems over small moduli: whenever they stop with success, the number has *)
(* the given image, and every number within the stated bounds is found (for all images and moduli up to N).            *)
EXTENDS Integers, TLC
CONSTANTS N, T0
VARIABLES m, a, r0, r1, t0, t1, n, d, T, st, method
V == <<m, a, r0, r1, t0, t1, n, d, T, st, method>>
Ab(x) == IF x < 0 THEN -x ELSE x
RECURSIVE G(_, _)
G(x, y) == IF y = 0 THEN Ab(x) ELSE G(Ab(y), x % Ab(y))
Init == /\ m \in 2..N /\ a \in 0..(m - 1) /\ method \in {"wang", "mqrr"}
        /\ r0 = m /\ r1 = a /\ t0 = 0 /\ t1 = 1 /\ n = 0 /\ d = 0 /\ T = T0
        /\ st = IF method = "mqrr" /\ a = 0 THEN (IF m > T0 THEN "zero" ELSE "fail") ELSE "run"
Euclid == LET q == r0 \div r1 IN r0' = r1 /\ r1' = r0 - q * r1 /\ t0' = t1 /\ t1' = t0 - q * t1
Wang == /\ st = "run" /\ method = "wang" /\ UNCHANGED <<m, a, T, method>>
        /\ IF 2 * r1 * r1 > m THEN Euclid /\ UNCHANGED <<n, d, st>>
           ELSE /\ st' = IF 2 * t1 * t1 > m \/ G(r1, t1) # 1 THEN "fail" ELSE "ok"
                /\ n' = r1 /\ d' = t1 /\ UNCHANGED <<r0, r1, t0, t1>>
Mqrr == /\ st = "run" /\ method = "mqrr" /\ UNCHANGED <<m, a, method>>
        /\ IF r1 # 0 /\ r0 > T
           THEN /\ Euclid /\ st' = st
                /\ IF r0 \div r1 > T THEN n' = r1 /\ d' = t1 /\ T' = r0 \div r1 ELSE UNCHANGED <<n, d, T>>
           ELSE st' = (IF d = 0 \/ G(n, d) # 1 THEN "fail" ELSE "ok") /\ UNCHANGED <<r0, r1, t0, t1, n, d, T>>
Next == Wang \/ Mqrr
Spec == Init /\ [][Next]_V /\ WF_V(Next)

num == IF st = "zero" THEN 0 ELSE IF d < 0 THEN -n ELSE n
den == IF st = "zero" THEN 1 ELSE Ab(d)
ok == st \in {"ok", "zero"}
Done == st # "run"
Im(x, y) == G(y, m) = 1 /\ (x - a * y) % m = 0
Step == (r1 - t1 * a) % m = 0
Bound == IF method = "wang" THEN 2 * num * num <= m /\ 2 * den * den <= m ELSE IF num = 0 THEN m > T0 ELSE T0 * Ab(num) * den < m
Sound == ok => Im(num, den) /\ G(num, den) = 1 /\ den > 0 /\ Bound
Cand == {w \in (-N..N) \X (1..N) : 2 * w[1] * w[1] < m /\ 2 * w[2] * w[2] < m /\ G(w[1], w[2]) = 1 /\ Im(w[1], w[2])}
MustFind(w) ==
  IF method = "wang" THEN TRUE
  ELSE IF w[1] = 0 THEN m > T0 ELSE LET nd == Ab(w[1]) * w[2] IN 4 * nd * nd < m /\ 2 * T0 * nd < m
Found == Done => \A w \in Cand : MustFind(w) => ok /\ num = w[1] /\ den = w[2]
Unique == Done => \A v, w \in Cand : v = w
Terminates == <>Done
=============================================================================
