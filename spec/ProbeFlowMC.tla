----------------------------- MODULE ProbeFlowMC -----------------------------
(* Exhaustive exploration of ProbeFlow: two items, two threads, a few points and two fields; every order.         *)
EXTENDS ProbeFlow, Integers
CONSTANTS Items, Threads, Points, MaxField
VARIABLE nk
vars == <<pfvars, nk>>
Init == PFInit(Items) /\ nk = 0
Pts == {<<p>> : p \in Points} \cup {<<p, q>> : p, q \in Points}
Value(p, i) == <<field, p, i>>
Next ==
  \/ field < MaxField /\ EnterField(field + 1, Items \ finished) /\ (\A i \in Items : busy[i] = 0) /\ nk' = 0
  \/ Told /\ nk' = nk
  \/ \E th \in Threads, ps \in Pts : nk < 2 /\ EvalBegin(nk, th, ps) /\ nk' = nk + 1
  \/ \E k \in DOMAIN running : EvalEnd(k, [a \in 1..Len(running[k].pts) |-> [i \in Items |-> Value(running[k].pts[a], i)]]) /\ nk' = nk
  \/ \E i \in Items, th \in Threads, k \in DOMAIN bunch, z \in BOOLEAN : (i \in open \/ k \in gone[i]) /\ Deliver(i, th, k, bunch[k], z) /\ nk' = nk
  \/ \E i \in Items : i \in open /\ given[i] # {} /\ busy[i] < 1 /\ InterpolateBegin(i) /\ nk' = nk
  \/ \E i \in Items, l, d \in BOOLEAN : InterpolateEnd(i, l, d) /\ nk' = nk
Spec == Init /\ [][Next]_vars
ValuesBelong == \A p \in DOMAIN vals, i \in Items : vals[p].v[i] = Value(p, i)
=============================================================================
