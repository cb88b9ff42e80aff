-------------------------------- MODULE Owner --------------------------------
(* To whom a saved state belongs.  A saved state consists of one file per function and a validation file; it can be      *)
(* continued once the validation file is in place.  A process either begins anew (and then takes the directory over) or  *)
(* resumes; if the values of its black box differ from those of the black box the state was saved for it has to stop     *)
(* before it changes a file or has a result.                                                                              *)
EXTENDS Naturals, FiniteSets
VARIABLES owner,    \* the black box the files belong to
          valid,    \* the validation file is in place
          me,       \* the black box of the process that is running
          verdict   \* "none": no process, "anew", "go", "refuse", "nothing": there was no complete state to resume
ovars == <<owner, valid, me, verdict>>
OwnerInit(nobody) == owner = nobody /\ valid = FALSE /\ me = nobody /\ verdict = "none"
\* a process with black box b begins; same: its values are those of the owner of the state
OwnerBegin(b, resume, same) ==
  /\ me' = b
  /\ verdict' = IF ~resume THEN "anew" ELSE IF ~valid THEN "nothing" ELSE IF same THEN "go" ELSE "refuse"
  /\ UNCHANGED <<owner, valid>>
MayModify == verdict \in {"anew", "nothing", "go"}
MayGiveResults == verdict \in {"anew", "nothing", "go"}
\* the validation file is removed / put in place by a process that begins anew: from then on the files are its own
OwnerInvalid == valid' = FALSE /\ UNCHANGED <<owner, me, verdict>>
OwnerValid == valid' = TRUE /\ owner' = me /\ UNCHANGED <<me, verdict>>
OwnerStop == verdict' = "none" /\ UNCHANGED <<owner, valid, me>>
=============================================================================
