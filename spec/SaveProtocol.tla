---------------------------- MODULE SaveProtocol ----------------------------
(* The order in which a reconstruction writes and renames its files, with processes that die between any two of these   *)
(* operations and are resumed: the saved state can be continued at every moment, a saved field is lost only while it is  *)
(* being saved, and probes are only continued in the field, and with the anchor points, they belong to.                   *)
EXTENDS SaveDisk, TLC
CONSTANTS N,        \* number of functions
          Fields,   \* fields a function may need
          Crashes   \* how often a process may die
Items == 1..N
Cut == <<-1, 0>>
VARIABLES content,  \* function -> number of fields combined in its state file
          food,     \* function -> content of its probe file: {} or a set with one <<field, anchor points>>, or Cut with it
          anchor,   \* the anchor points on disk
          need,     \* function -> number of fields it needs
          todo,     \* function -> operations that are still to be done for it; todo[0]: those of the main thread
          field, level, comb, anch, gen, up, crashes
vars == <<dvars, content, food, anchor, need, todo, field, level, comb, anch, gen, up, crashes>>
mem == <<field, level, comb, anch, gen, up>>
Done(i) == comb[i] >= need[i]
Idle == \A i \in 0..N : todo[i] = <<>>

Op(o, i, k) == [op |-> o, i |-> i, k |-> k]
\* the initial state, then the anchor points, and the validation file at the very end
First == [j \in 1..(2 * N) |-> IF j % 2 = 1 THEN Op("state0", (j + 1) \div 2, 0) ELSE Op("probe0", j \div 2, 0)] \o <<Op("anchors", 0, 0), Op("valid", 0, 0)>>
Init == /\ DiskInit(Items) /\ content = [i \in Items |-> 0] /\ food = [i \in Items |-> {}] /\ anchor = 0
        /\ need \in [Items -> 1..Fields]
        /\ todo = [i \in 0..N |-> IF i = 0 THEN First ELSE <<>>]
        /\ field = 0 /\ level = [i \in Items |-> 0] /\ comb = [i \in Items |-> 0] /\ anch = 1 /\ gen = 1 /\ up = TRUE /\ crashes = 0

\* one operation of the file system
Do(q) ==
  /\ up /\ todo[q] # <<>>
  /\ LET o == Head(todo[q]) i == o.i k == o.k IN
     /\ states' = CASE o.op = "state0" -> [states EXCEPT ![i] = {0}]
                    [] o.op = "moveState" -> [states EXCEPT ![i] = MoveIn(@, k - 1, k)]
                    [] o.op = "newState" -> [states EXCEPT ![i] = @ \cup {k}]
                    [] OTHER -> states
     /\ content' = CASE o.op = "newState" -> [content EXCEPT ![i] = comb[i]] [] OTHER -> content
     /\ probes' = CASE o.op = "probe0" -> [probes EXCEPT ![i] = {0}]
                    [] o.op = "moveProbes" -> [probes EXCEPT ![i] = MoveIn(@, k, k + 1)]
                    [] OTHER -> probes
     /\ food' = CASE o.op = "clearProbes" -> IF k \in probes[i] THEN [food EXCEPT ![i] = {}] ELSE food
                  [] o.op = "cutProbes" -> [food EXCEPT ![i] = @ \cup {Cut}]
                  [] o.op = "addProbes" -> [food EXCEPT ![i] = (@ \ {Cut}) \cup {<<field, anch>>}]
                  [] OTHER -> food
     /\ anchor' = IF o.op = "anchors" THEN anch ELSE anchor
     /\ valid' = IF o.op = "valid" THEN TRUE ELSE valid
     /\ todo' = [todo EXCEPT ![q] = Tail(@)]
  /\ UNCHANGED <<mem, need, crashes>>

\* a function has all it needs in this field: its state is saved and an empty probe file prepared
Save(i) ==
  /\ up /\ todo[0] = <<>> /\ todo[i] = <<>> /\ ~Done(i) /\ level[i] = field
  /\ level' = [level EXCEPT ![i] = field + 1] /\ comb' = [comb EXCEPT ![i] = @ + 1]
  /\ todo' = [todo EXCEPT ![i] = <<Op("moveState", i, field), Op("newState", i, field), Op("clearProbes", i, field), Op("moveProbes", i, field)>>]
  /\ UNCHANGED <<dvars, content, food, anchor, need, field, anch, gen, up, crashes>>
WriteProbes(i) ==
  /\ up /\ todo[0] = <<>> /\ todo[i] = <<>> /\ ~Done(i) /\ level[i] = field /\ food[i] = {}
  /\ todo' = [todo EXCEPT ![i] = <<Op("cutProbes", i, field), Op("addProbes", i, field)>>]
  /\ UNCHANGED <<dvars, content, food, anchor, need, mem, crashes>>
\* the next field: files of functions that were not saved in this one are renamed, then new anchor points are chosen
NextField ==
  /\ up /\ Idle /\ \A i \in Items : Done(i) \/ level[i] > field
  /\ \E i \in Items : ~Done(i)
  /\ field' = field + 1 /\ gen' = gen + 1 /\ anch' = gen + 1
  /\ todo' = [todo EXCEPT ![0] = [j \in 1..(2 * N) |-> IF j % 2 = 1 THEN Op("moveProbes", (j + 1) \div 2, field)
                                                        ELSE IF field > 0 THEN Op("moveState", j \div 2, field) ELSE Op("none", j \div 2, field)] \o <<Op("anchors", 0, 0)>>]
  /\ UNCHANGED <<dvars, content, food, anchor, need, level, comb, up, crashes>>
Crash == /\ up /\ crashes < Crashes /\ crashes' = crashes + 1 /\ up' = FALSE
         /\ todo' = [i \in 0..N |-> <<>>] /\ UNCHANGED <<dvars, content, food, anchor, need, field, level, comb, anch, gen>>

The(S) == CHOOSE x \in S : TRUE
Num(i) == The(states[i])
MinNum == CHOOSE m \in {Num(i) : i \in Items} : \A i \in Items : m <= Num(i)
Prime(i) == IF content[i] = 0 THEN 0 ELSE Num(i) + 1
Fin(i) == content[i] >= need[i]
\* where a resumed process continues, and whether it continues with the saved anchor points
InFirst == MinNum = 0 /\ \E i \in Items : ~Fin(i) /\ Prime(i) = 0
Load == InFirst \/ \E i \in Items : ~Fin(i) /\ Prime(i) = MinNum + 1
Kept(i) == ~Fin(i) /\ probes[i] = {Prime(i)} /\ food[i] \ {Cut} # {}
Resume ==
  /\ ~up /\ valid
  /\ up' = TRUE
  /\ level' = [i \in Items |-> Prime(i)] /\ comb' = content
  /\ field' = IF InFirst THEN 0 ELSE MinNum + 1
  /\ anch' = (IF Load THEN anchor ELSE gen + 1) /\ gen' = gen + 1
  \* probe files are replaced by those of the current field with complete lines
  /\ food' = [i \in Items |-> IF Fin(i) THEN food[i] ELSE IF Kept(i) THEN food[i] \ {Cut} ELSE {}]
  /\ probes' = [i \in Items |-> IF Fin(i) THEN probes[i] ELSE {Prime(i)}]
  /\ todo' = [todo EXCEPT ![0] = IF InFirst THEN <<>> ELSE <<Op("anchors", 0, 0)>>]
  /\ UNCHANGED <<states, valid, content, anchor, need, crashes>>
\* nothing was saved completely yet: a new run
Restart == /\ ~up /\ ~valid /\ up' = TRUE /\ states' = [i \in Items |-> {}] /\ probes' = [i \in Items |-> {}] /\ content' = [i \in Items |-> 0]
           /\ food' = [i \in Items |-> {}] /\ todo' = [i \in 0..N |-> IF i = 0 THEN First ELSE <<>>] /\ field' = 0 /\ level' = [i \in Items |-> 0]
           /\ comb' = [i \in Items |-> 0] /\ anch' = gen + 1 /\ gen' = gen + 1 /\ UNCHANGED <<valid, anchor, need, crashes>>
Finished == up /\ Idle /\ (\A i \in Items : Done(i)) /\ UNCHANGED vars
Next == (\E q \in 0..N : Do(q)) \/ (\E i \in Items : Save(i) \/ WriteProbes(i)) \/ NextField \/ Crash \/ Resume \/ Restart \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(\E q \in 0..N : Do(q)) /\ WF_vars(Resume \/ Restart) /\ WF_vars(NextField) /\ \A i \in Items : WF_vars(Save(i))

\* the field a process is in never exceeds what its functions have, and its open functions are in that field
Recoverable == Continuable
NothingFinishedIsLost == up /\ valid => \A i \in Items : (todo[i] = <<>> => content[i] = comb[i])
RightProbes == (~up /\ valid) => \A i \in Items : Kept(i) =>
                 \A f \in food[i] \ {Cut} : f[1] = Prime(i) /\ Load /\ (InFirst => Prime(i) = 0) /\ f[2] = anchor
OneKind == \A i \in Items : Cardinality(food[i] \ {Cut}) <= 1
Behind == \A i \in Items : valid /\ content[i] > 0 => content[i] <= Num(i) + 1
Ends == <>[](\A i \in Items : Done(i))
=============================================================================
