------------------------------ MODULE ProbeFlow ------------------------------
(* What happens to probes during a reconstruction, seen from outside: prime fields are entered one after the     *)
(* other, the black box is told, points are evaluated (several at once in a bunch), and the values are handed to *)
(* the functions ("items") that are still being interpolated in the field, while these interpolate and finish.    *)
(*                                                                                                                *)
(* The module is used in two ways: ProbeFlowMC explores it exhaustively for small constants, and ProbeFlowTrace   *)
(* checks that executions of the real library are behaviours of it.  JobLoop (the detailed design of the main     *)
(* loop) is shown to implement it.                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  field,     \* index of the current prime field, -1 before the first one
  told,      \* the field the black box was last told about (completely)
  running,   \* evaluations in progress: id -> [th, pts (sequence of points), field]
  vals,      \* points evaluated in the current field: point -> [k (id of the evaluation), v (values of all items)]
  bunch,     \* completed evaluations of the current field: id -> set of its points
  given,     \* item -> set of points handed to it in the current field
  open,      \* items known to be interpolated in the current field and neither finished nor waiting for the next
  busy,      \* item -> number of interpolation calls in progress
  owed,      \* item -> evaluations it was not given while its interpolation was running (it may have finished meanwhile)
  finished,  \* items completely reconstructed
  gone,      \* item -> evaluations that were complete when it finished or left the field (a delivery that had been
             \* decided before may still reach it and has no effect)
  unsure,    \* items that were given a vanishing value and have not interpolated since: such an item may have left the
             \* field, which shows only when its next interpolation ends
  duty       \* thread -> [k, items]: the delivery the thread is making and the items it still has to reach

pfvars == <<field, told, running, vals, bunch, given, open, busy, owed, finished, gone, unsure, duty>>

Empty == [x \in {} |-> 0]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

PFInit(Items) ==
  /\ field = -1 /\ told = -1
  /\ running = Empty /\ vals = Empty /\ bunch = Empty
  /\ given = [i \in Items |-> {}]
  /\ open = {} /\ busy = [i \in Items |-> 0] /\ owed = [i \in Items |-> {}]
  /\ finished = {} /\ gone = [i \in Items |-> {}] /\ unsure = {} /\ duty = Empty

\* A delivery is complete when every item it had to reach has been reached or has left the field meanwhile.  An item
\* whose interpolation is running may have left it inside that call: the debt is settled when the call returns.
Reached(i, k) == bunch[k] \subseteq given[i]
DutyDone(th) == th \in DOMAIN duty => \A i \in duty[th].items : Reached(i, duty[th].k) \/ i \notin open \/ busy[i] > 0 \/ i \in unsure
AllDutiesDone == \A th \in DOMAIN duty : DutyDone(th)
OwedAfter(th) == IF th \notin DOMAIN duty THEN owed
                 ELSE [i \in DOMAIN owed |-> IF i \in duty[th].items \cap open /\ ~Reached(i, duty[th].k) THEN owed[i] \cup {duty[th].k} ELSE owed[i]]

\* the field changes only when nothing is being evaluated; every item not yet finished becomes open again
EnterField(f, nowopen) ==
  /\ running = Empty
  /\ AllDutiesDone
  /\ unsure \cap open = {}
  /\ field' = f
  /\ vals' = Empty /\ bunch' = Empty /\ duty' = Empty
  /\ given' = [i \in DOMAIN given |-> {}]
  /\ owed' = [i \in DOMAIN owed |-> {}]
  /\ gone' = [i \in DOMAIN gone |-> {}]
  /\ open' = nowopen /\ unsure' = {}
  /\ UNCHANGED <<told, running, busy, finished>>

Told == /\ told # field
        /\ told' = field
        /\ UNCHANGED <<field, running, vals, bunch, given, open, busy, owed, finished, gone, unsure, duty>>

\* all points of a bunch are different and were neither evaluated before in this field nor are being evaluated
Distinct(pts) == \A a, b \in 1..Len(pts) : a # b => pts[a] # pts[b]
Fresh(pts) == \A a \in 1..Len(pts) : /\ pts[a] \notin DOMAIN vals
                                     /\ \A k \in DOMAIN running : \A b \in 1..Len(running[k].pts) : running[k].pts[b] # pts[a]
EvalBegin(k, th, pts) ==
  /\ told = field
  /\ k \notin DOMAIN running /\ k \notin DOMAIN bunch
  /\ Distinct(pts) /\ Fresh(pts)
  /\ running' = (k :> [th |-> th, pts |-> pts, field |-> field]) @@ running
  /\ UNCHANGED <<field, told, vals, bunch, given, open, busy, owed, finished, gone, unsure, duty>>

EvalEnd(k, vs) ==
  /\ k \in DOMAIN running
  /\ running[k].field = field
  /\ Len(vs) = Len(running[k].pts)
  /\ vals' = [p \in {running[k].pts[a] : a \in 1..Len(vs)} |-> [k |-> k, v |-> vs[CHOOSE a \in 1..Len(vs) : running[k].pts[a] = p]]] @@ vals
  /\ bunch' = (k :> {running[k].pts[a] : a \in 1..Len(vs)}) @@ bunch
  /\ running' = Without(running, k)
  /\ UNCHANGED <<field, told, given, open, busy, owed, finished, gone, unsure, duty>>

\* thread th hands points pts (all of the bunch k) to item i
Deliver(i, th, k, pts, zero) ==
  /\ \A p \in pts : p \in DOMAIN vals /\ vals[p].k = k
  /\ pts \cap given[i] = {}
  /\ i \notin finished \/ k \in gone[i]
  /\ given' = [given EXCEPT ![i] = @ \cup pts]
  /\ open' = IF k \in gone[i] THEN open ELSE open \cup {i}
  /\ unsure' = IF zero THEN unsure \cup {i} ELSE unsure
  /\ IF th \in DOMAIN duty /\ duty[th].k = k
     THEN duty' = duty /\ owed' = owed
     ELSE /\ DutyDone(th)
          /\ owed' = OwedAfter(th)
          /\ duty' = (th :> [k |-> k, items |-> open]) @@ duty
  /\ UNCHANGED <<field, told, running, vals, bunch, busy, finished, gone>>

InterpolateBegin(i) == busy' = [busy EXCEPT ![i] = @ + 1] /\ UNCHANGED <<field, told, running, vals, bunch, given, open, owed, finished, gone, unsure, duty>>

\* leaves: the item waits for the next field; done: it is finished
InterpolateEnd(i, leaves, done) ==
  /\ busy[i] > 0
  /\ busy' = [busy EXCEPT ![i] = @ - 1]
  /\ (busy[i] = 1 /\ i \in open /\ ~leaves /\ ~done) => \A k \in owed[i] : Reached(i, k)
  /\ owed' = IF busy[i] = 1 THEN [owed EXCEPT ![i] = {}] ELSE owed
  /\ open' = IF leaves \/ done THEN open \ {i} ELSE open
  /\ unsure' = IF busy[i] = 1 THEN unsure \ {i} ELSE unsure
  /\ finished' = IF done THEN finished \cup {i} ELSE finished
  /\ gone' = IF (leaves \/ done) /\ i \in open THEN [gone EXCEPT ![i] = DOMAIN bunch] ELSE gone
  /\ UNCHANGED <<field, told, running, vals, bunch, given, duty>>

-----------------------------------------------------------------------------
\* properties of the design
NoEvaluationOutsideItsField == \A k \in DOMAIN running : running[k].field = field
NoEvaluationBeforeTold == running # Empty => told = field
NoFinishedItemOpen == finished \cap open = {}
OnlyEvaluatedPointsAreGiven == \A i \in DOMAIN given : given[i] \subseteq DOMAIN vals
FieldsInOrder == [][field' # field => field' = field + 1]_pfvars
\* when the field is left, an item that stayed in it (and would therefore need them) was given all delivered probes
DeliveredToAll == [][field' # field =>
   \A k \in DOMAIN bunch : (\E i \in DOMAIN given : bunch[k] \cap given[i] # {}) =>
      \A j \in DOMAIN given : Reached(j, k) \/ j \notin open]_pfvars
=============================================================================
