-------------------------------- MODULE Supply --------------------------------
(* Reconstruction from probes that are supplied in files.  A probe of a field is <<order, t>>.  A process reads what was  *)
(* supplied for its field, gives each probe to the functions that are open in the field, and when this is not enough it   *)
(* asks for new probes and stops; the environment supplies (some of) what was asked for, for that field.                  *)
EXTENDS Integers, FiniteSets
VARIABLES field,      \* the field of the process, -1 before the first
          supplied,   \* field -> set of probes in its file
          kept,       \* item -> probes of the field that were saved for it by an earlier process
          given,      \* item -> probes that were given to it by this process in this field
          open,       \* items that are not complete in this field
          over        \* the process asked for probes, or is done
svars == <<field, supplied, kept, given, open, over>>
Known(f) == IF f \in DOMAIN supplied THEN supplied[f] ELSE {}
Used(i) == given[i] \cup kept[i]
\* a probe may be given to item i
Feedable(i, q) == ~over /\ i \in open /\ q \in Known(field) /\ q \notin Used(i)
\* every supplied probe was used (by some function that needed it before it was saved, or by all that are open)
Exhausted == \A i \in open, q \in Known(field) : q \in Used(i) \/ \E j \in DOMAIN kept : q \in kept[j]
\* a set of requests R of the current field
Askable(R) == ~over /\ R # {} /\ R \cap Known(field) = {} /\ open # {} /\ Exhausted
================================================================================
