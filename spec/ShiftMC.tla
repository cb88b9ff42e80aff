------------------------------ MODULE ShiftMC ------------------------------
(* The scan over all candidates, for every choice of up to Fns functions in up to N variables: it accepts a shift with  *)
(* the fewest variables, it always accepts one, and the library's order of candidates is one of the allowed orders.     *)
EXTENDS Shift
CONSTANTS N, Fns
VARIABLES n, fs, tried, accepted, libv
vars == <<n, fs, tried, accepted, libv>>
None == {0}
Init == /\ n \in 1..N /\ fs \in UNION {[1..k -> SUBSET (SUBSET (1..n))] : k \in 1..(IF n = 3 THEN 1 ELSE Fns)}
        /\ tried = {} /\ accepted = None /\ libv = [q \in 1..n |-> 0]
Try == /\ accepted = None /\ libv # <<>>
       /\ LET P == Ones(libv) IN
            /\ tried' = tried \cup {P}
            /\ accepted' = IF WorksAll(P, fs) THEN P ELSE None
       /\ libv' = LibNext(libv)
       /\ UNCHANGED <<n, fs>>
Spec == Init /\ [][Try]_vars /\ WF_vars(Try)
OrderOk == (accepted = None /\ libv # <<>>) => NextOk(Ones(libv), tried, n)
\* the list ends only when everything was tried, and the last candidate always works
ListComplete == libv = <<>> => (tried = SUBSET (1..n) \/ accepted # None)
Sparsest == accepted # None => WorksAll(accepted, fs) /\ \A Q \in SUBSET (1..n) : WorksAll(Q, fs) => Cardinality(accepted) <= Cardinality(Q)
Accepts == <>(accepted # None)
=============================================================================
