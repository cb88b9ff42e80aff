------------------------------ MODULE SaveDisk ------------------------------
(* The directory ff_save as a process that dies leaves it.  For every function there is one file with its state and     *)
(* one with probes; the number in the name of a state file is the last field taken into account, that of a probe file   *)
(* is the field the probes belong to.  The file with the validation point is the last one of the initial state.          *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES states,   \* function -> set of numbers for which a state file exists
          probes,   \* function -> set of numbers for which a probe file exists
          valid     \* the validation file exists
dvars == <<states, probes, valid>>
DiskInit(I) == states = [i \in I |-> {}] /\ probes = [i \in I |-> {}] /\ valid = FALSE
MoveIn(S, a, b) == IF a \in S THEN (S \ {a}) \cup {b} ELSE S
\* What is needed to continue: exactly one file of each kind per function at every moment.
Continuable == valid => \A i \in DOMAIN states : Cardinality(states[i]) = 1 /\ Cardinality(probes[i]) = 1
=============================================================================
