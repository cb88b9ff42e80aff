------------------------------- MODULE SupplyMC -------------------------------
(* Supply with functions that need a number of probes of each order in each field: whatever subset of the requests is     *)
(* answered each time, and whatever was saved when a process ended, everything is complete in the end, and nothing is     *)
(* used twice.                                                                                                            *)
EXTENDS Supply, TLC
CONSTANTS Items, Orders, Fields, MaxNeed, Spare
VARIABLES need,     \* item -> field -> order -> number of probes
          at,       \* item -> field it is in (Fields: complete)
          mem,      \* item -> probes saved for its field
          asked     \* the requests of the last process
mcvars == <<svars, need, at, mem, asked>>
Count(S, o) == Cardinality({q \in S : q[1] = o})
Enough(i, S) == \A o \in Orders : Count(S, o) >= need[i][at[i]][o]
MinAt == CHOOSE f \in {at[i] : i \in Items} : \A i \in Items : f <= at[i]
AllDone == \A i \in Items : at[i] = Fields
Init == /\ need \in [Items -> [0..(Fields - 1) -> [Orders -> 0..MaxNeed]]]
        /\ at = [i \in Items |-> 0] /\ mem = [i \in Items |-> {}] /\ asked = {}
        /\ field = -1 /\ supplied = [f \in 0..(Fields - 1) |-> {}] /\ kept = [i \in Items |-> {}]
        /\ given = [i \in Items |-> {}] /\ open = {} /\ over = TRUE
OpenIn(f) == {i \in Items : at[i] = f}
Start == /\ over /\ ~AllDone /\ asked = {} /\ field' = MinAt /\ over' = FALSE
         /\ kept' = mem /\ given' = [i \in Items |-> {}] /\ open' = OpenIn(MinAt)
         /\ UNCHANGED <<supplied, need, at, mem, asked>>
Seen == UNION {kept[i] : i \in Items}
Feed == /\ \E q \in Known(field) \ Seen :
             /\ \E i \in open : Feedable(i, q)
             /\ given' = [i \in Items |-> IF Feedable(i, q) THEN given[i] \cup {q} ELSE given[i]]
        /\ UNCHANGED <<field, supplied, kept, open, over, need, at, mem, asked>>
Complete(i) == /\ ~over /\ i \in open /\ Enough(i, Used(i))
               /\ open' = open \ {i} /\ at' = [at EXCEPT ![i] = @ + 1] /\ mem' = [mem EXCEPT ![i] = {}]
               /\ UNCHANGED <<field, supplied, kept, given, over, need, asked>>
\* food is written to disk at any time
Save(i) == /\ ~over /\ i \in open /\ mem[i] # Used(i) /\ mem' = [mem EXCEPT ![i] = Used(i)]
           /\ UNCHANGED <<svars, need, at, asked>>
Next0 == /\ ~over /\ open = {} /\ ~AllDone /\ field' = field + 1 /\ open' = OpenIn(field + 1)
         /\ given' = [i \in Items |-> {}] /\ kept' = [i \in Items |-> {}]
         /\ UNCHANGED <<supplied, over, need, at, mem, asked>>
\* new probes of an order: numbers that were not used before
Top(o) == LET S == {q[2] : q \in {x \in Known(field) : x[1] = o}} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Fresh(o, k) == {<<o, t>> : t \in (Top(o) + 1)..(Top(o) + k)}
Lacking(o) == LET L == {need[i][field][o] - Count(Used(i), o) : i \in {j \in open : Count(Used(j), o) < need[j][field][o]}}
              IN IF L = {} THEN 0 ELSE CHOOSE x \in L : \A y \in L : y <= x
Ask == /\ \E k \in 0..Spare, o \in {x \in Orders : Lacking(x) > 0} :
            LET R == (UNION {Fresh(x, Lacking(x)) : x \in Orders}) \cup Fresh(o, Lacking(o) + k) IN Askable(R) /\ (\A i \in open : ~Enough(i, Used(i))) /\ asked' = R
       /\ over' = TRUE /\ UNCHANGED <<field, supplied, kept, given, open, need, at, mem>>
Answer == /\ over /\ asked # {}
          /\ \E A \in SUBSET asked : A # {} /\ supplied' = [supplied EXCEPT ![field] = @ \cup A]
          /\ asked' = {} /\ UNCHANGED <<field, kept, given, open, over, need, at, mem>>
Finish == AllDone /\ ~over /\ over' = TRUE /\ UNCHANGED <<field, supplied, kept, given, open, need, at, mem, asked>>
Next == Start \/ Feed \/ (\E i \in Items : Complete(i) \/ Save(i)) \/ Next0 \/ Ask \/ Answer \/ Finish
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Start) /\ WF_mcvars(Feed) /\ WF_mcvars(Next0) /\ WF_mcvars(Ask) /\ WF_mcvars(Answer) /\ (\A i \in Items : WF_mcvars(Complete(i)))
Once == \A i \in Items : given[i] \cap kept[i] = {} /\ given[i] \subseteq Known(field)
OnlyMissing == asked \cap Known(field) = {}
Ends == <>AllDone
================================================================================
