------------------------------- MODULE OwnerMC -------------------------------
(* The files behind Owner: processes with different black boxes use the same directory, die at any file operation, and   *)
(* resume.  The state of a function is (black box, number of the function); the validation file holds the black box.     *)
EXTENDS Owner, Sequences
CONSTANTS Boxes,     \* black boxes: functions number -> value, e.g. <<"a", "b">>; two are different iff they are unequal
          Runs,      \* number of processes
          Cleans     \* files of former reconstructions are removed before anything is saved (FALSE shows why it is needed)
VARIABLES files,     \* function number -> the black box its file is from
          vfile,     \* content of the validation file, if any
          todo,      \* file operations a process still has to carry out before its state is complete
          ok,        \* what the check of the process said
          runs
MCBoxes == {<<"a">>, <<"a", "b">>, <<"a", "c">>, <<"b", "a">>}
vars == <<ovars, files, vfile, todo, ok, runs>>
None == <<>>
Max == CHOOSE m \in {Len(b) : b \in Boxes} : \A b \in Boxes : Len(b) <= m
Empty == [i \in {} |-> None]
Init == OwnerInit(None) /\ files = Empty /\ vfile = None /\ todo = <<>> /\ ok = "none" /\ runs = 0
Anew(b) == <<[op |-> "invalid", i |-> 0]>> \o (IF Cleans THEN [i \in 1..Max |-> [op |-> "clean", i |-> i]] ELSE <<>>)
           \o [i \in 1..Len(b) |-> [op |-> "state", i |-> i]] \o <<[op |-> "valid", i |-> 0]>>
Agrees(b) == vfile = b
Begin == \E b \in Boxes, resume \in BOOLEAN :
  /\ verdict = "none" /\ runs < Runs /\ runs' = runs + 1
  /\ OwnerBegin(b, resume, owner = b)
  \* what the implementation does: without any state a resuming process begins anew, without the validation file it stops
  /\ ok' = IF ~resume \/ DOMAIN files = {} THEN "anew" ELSE IF vfile = None THEN "stop" ELSE IF Agrees(b) THEN "go" ELSE "stop"
  /\ todo' = IF ok' = "anew" THEN Anew(b) ELSE <<>>
  /\ UNCHANGED <<files, vfile>>
Do == /\ verdict # "none" /\ todo # <<>>
      /\ LET o == Head(todo) IN
         /\ files' = CASE o.op = "state" -> [j \in DOMAIN files \cup {o.i} |-> IF j = o.i THEN me ELSE files[j]]
                       [] o.op = "clean" -> [j \in DOMAIN files \ {o.i} |-> files[j]]
                       [] OTHER -> files
         /\ vfile' = CASE o.op = "invalid" -> None [] o.op = "valid" -> me [] OTHER -> vfile
         /\ CASE o.op = "invalid" -> OwnerInvalid [] o.op = "valid" -> OwnerValid [] OTHER -> UNCHANGED ovars
      /\ todo' = Tail(todo) /\ UNCHANGED <<ok, runs>>
\* the process ends or dies
Stop == verdict # "none" /\ OwnerStop /\ ok' = "none" /\ todo' = <<>> /\ UNCHANGED <<files, vfile, runs>>
Next == Begin \/ Do \/ Stop
Spec == Init /\ [][Next]_vars

\* a state that counts as complete is exactly the one of its owner, and nothing of others is left
Complete == valid => DOMAIN files = 1..Len(owner) /\ \A i \in DOMAIN files : files[i] = owner
Decision == verdict # "none" => /\ verdict = "refuse" => ok = "stop"
                                /\ verdict = "go" => ok = "go"
                                /\ verdict = "anew" => ok = "anew"
                                /\ verdict = "nothing" => ok \in {"anew", "stop"}
\* a process that goes on has one file for each of its functions
Fitting == ok = "go" => DOMAIN files = 1..Len(me) /\ \A i \in DOMAIN files : files[i] = me
Untouched == [][verdict = "refuse" => UNCHANGED <<files, vfile, owner, valid>>]_vars
=============================================================================
