----------------------------- MODULE BunchesMC -----------------------------
(* The library's rule cuts every queue as promised: threads take bunches one after the other until the queue is empty.  *)
EXTENDS Bunches, TLC
CONSTANTS Q, T
VARIABLES q, thr, max, left, taken
V == <<q, thr, max, left, taken>>
Init == q \in 0..Q /\ thr \in 1..T /\ max \in Supported /\ left = q /\ taken = <<>>
Take == left > 0 /\ LET b == Size(left, thr, max) IN left' = left - b /\ taken' = Append(taken, b) /\ UNCHANGED <<q, thr, max>>
Done == left = 0 /\ UNCHANGED V
Spec == Init /\ [][Take \/ Done]_V /\ WF_V(Take)
Inv == left >= 0 /\ SumTo(taken, Len(taken)) + left = q /\ (left = 0 => PartitionOk(q, thr, max, taken))
Terminates == <>(left = 0)
=============================================================================
