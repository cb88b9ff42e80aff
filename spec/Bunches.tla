------------------------------ MODULE Bunches ------------------------------
(* How a queue of requests is cut into bunches: every bunch has a supported size not above the maximum, the queue is   *)
(* cut completely, and no bunch grows while a thread could be left without one.                                         *)
EXTENDS Integers, Sequences
Supported == {1, 2, 4, 8, 16, 32, 64, 128}
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
PartitionOk(q, thr, max, s) ==
  /\ \A i \in 1..Len(s) : s[i] \in Supported /\ s[i] <= max
  /\ SumTo(s, Len(s)) = q
  /\ Len(s) >= Least(thr, q)
\* the number of requests that `free` threads take from the queue
JobsOk(q, free, s, r) == r = SumTo(s, Least(free, Len(s)))

\* the rule of the library
RECURSIVE Floor2(_)
Floor2(x) == IF x <= 1 THEN x ELSE 2 * Floor2(x \div 2)
Size(q, thr, max) ==
  IF max = 1 \/ q \div thr = 0 THEN 1
  ELSE LET t == Floor2(q \div thr) IN Least(max, IF 2 * t < q /\ t * thr # q THEN 2 * t ELSE t)
=============================================================================
