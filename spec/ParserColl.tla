------------------------------ MODULE ParserColl ------------------------------
(* The representation the parser uses - stored functions, evaluation positions, a map of known values, precomputed   *)
(* tokens - refines the abstract collection (coll): after any history the value at position i is that of coll[i].    *)
(* Functions are abstracted by their meaning (a small number), which decides equality.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fn, MaxLen, Eq
VARIABLES coll, store, pos, map, pre, bad, fresh      \* map: meaning -> stored index (0-based); pre: precomputed entries
vars == <<coll, store, pos, map, pre, bad, fresh>>
Init == coll = <<>> /\ store = <<>> /\ pos = <<>> /\ map = {} /\ pre = <<>> /\ bad = FALSE /\ fresh = TRUE
Look(f) == {m \in map : m[1] = f}
Stored(f) == (CHOOSE m \in Look(f) : TRUE)[2]
FirstPos(i) == CHOOSE k \in 1..Len(pos) : pos[k] = i /\ \A j \in 1..(k - 1) : pos[j] # i
\* position returned to the user is checked here
Add(f, nodup) ==
  /\ Len(coll) < MaxLen
  /\ IF ~Eq THEN store' = Append(store, f) /\ coll' = Append(coll, f) /\ bad' = (bad \/ Len(store') # Len(coll')) /\ UNCHANGED <<pos, map>>
     ELSE IF Look(f) # {} THEN
       IF nodup THEN LET k == FirstPos(Stored(f)) IN bad' = (bad \/ coll[k] # f) /\ UNCHANGED <<coll, store, pos, map>>
       ELSE pos' = Append(pos, Stored(f)) /\ coll' = Append(coll, f) /\ UNCHANGED <<store, map, bad>>
     ELSE /\ store' = Append(store, f) /\ map' = map \cup {<<f, Len(store)>>} /\ pos' = Append(pos, Len(store))
          /\ coll' = Append(coll, f) /\ UNCHANGED bad
  /\ UNCHANGED pre /\ fresh' = (fresh /\ store' = store)
Precompute == pre' = store /\ fresh' = TRUE /\ UNCHANGED <<coll, store, pos, map, bad>>
RECURSIVE Filter(_, _, _)
Filter(s, K, k) == IF k > Len(s) THEN <<>> ELSE (IF k \in K THEN <<s[k]>> ELSE <<>>) \o Filter(s, K, k + 1)
RECURSIVE Copy(_, _, _, _, _)     \* positions k.. of the trimmed collection; order: stored indices copied so far
Copy(k, K, order, np, dummy) ==
  IF k > Len(pos) THEN [order |-> order, pos |-> np]
  ELSE IF k \notin K THEN Copy(k + 1, K, order, np, dummy)
  ELSE LET at == {q \in 1..Len(order) : order[q] = pos[k]}
       IN IF at # {} THEN Copy(k + 1, K, order, Append(np, (CHOOSE q \in at : TRUE) - 1), dummy)
          ELSE Copy(k + 1, K, Append(order, pos[k]), Append(np, Len(order)), dummy)
Trim(K) ==
  /\ coll' = Filter(coll, K, 1) /\ UNCHANGED <<bad, fresh>>
  /\ IF ~Eq THEN store' = Filter(store, K, 1) /\ pre' = Filter(pre, K, 1) /\ UNCHANGED <<pos, map>>
     ELSE LET c == Copy(1, K, <<>>, <<>>, 0)
          IN /\ store' = [q \in 1..Len(c.order) |-> store[c.order[q] + 1]]
             /\ pre' = [q \in 1..Cardinality({q \in 1..Len(c.order) : c.order[q] < Len(pre)}) |-> LET o == SelectSeq(c.order, LAMBDA x : x < Len(pre)) IN pre[o[q] + 1]]
             /\ pos' = c.pos
             /\ map' = {<<m[1], (CHOOSE q \in 1..Len(c.order) : c.order[q] = m[2]) - 1>> : m \in {m \in map : \E q \in 1..Len(c.order) : c.order[q] = m[2]}}
Next == (\E f \in Fn, n \in BOOLEAN : Add(f, n)) \/ Precompute \/ (\E K \in SUBSET (1..Len(coll)) : Trim(K))
Spec == Init /\ [][Next]_vars
\* an evaluation of the store returns the collection
Result(s) == IF ~Eq THEN s ELSE IF Len(s) # Len(pos) THEN [k \in 1..Len(pos) |-> s[pos[k] + 1]] ELSE s
Faithful == ~bad /\ Result(store) = coll
\* tokens precomputed after the last addition are those of the stored functions, whatever was trimmed since
PreFaithful == fresh => pre = store
=============================================================================
