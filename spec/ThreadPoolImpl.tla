---------------------------- MODULE ThreadPoolImpl ----------------------------
(* The pool as it is built: one mutex, a condition on which idle threads sleep and a condition on which clients   *)
(* wait.  A critical section is one step; notifications wake one sleeper if there is one.  Checked: it implements *)
(* ThreadPool (refinement), and every operation returns.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N,          \* threads
          MaxT,       \* tasks
          MaxOps,     \* operations of the client
          Kids        \* tasks 1..Kids of the client submit one more task each
W == 1..N
VARIABLES q, stop, pc, task, flag, woken,   \* of the threads: pc is "fresh", "top", "sleep", "got", "run", "kid", "exit"
          mpc, mop, mwoken, mr, nops, next, dropped, res,
          owe                               \* threads of control which pushed a task and have not notified yet
vars == <<q, stop, pc, task, flag, woken, mpc, mop, mwoken, mr, nops, next, dropped, res, owe>>
Init == /\ q = <<>> /\ stop = FALSE /\ pc = [w \in W |-> "fresh"] /\ task = [w \in W |-> 0] /\ flag = [w \in W |-> TRUE] /\ woken = {}
        /\ mpc = "idle" /\ mop = [op |-> "none", t |-> 0] /\ mwoken = FALSE /\ mr = 0 /\ nops = 0 /\ next = 1 /\ dropped = {} /\ res = {} /\ owe = {}
AllFlags == \A w \in W : flag[w]
Elems(s) == {s[k] : k \in 1..Len(s)}
\* the notification of condition_wait
Wake == IF mpc \in {"waiting", "killing"} THEN mwoken' = TRUE ELSE mwoken' = mwoken
Look(w) == /\ \/ pc[w] \in {"fresh", "top"} /\ Wake
              \/ pc[w] = "sleep" /\ w \in woken /\ mwoken' = mwoken
           /\ woken' = woken \ {w}
           /\ IF q # <<>> THEN /\ pc' = [pc EXCEPT ![w] = "got"] /\ task' = [task EXCEPT ![w] = Head(q)] /\ q' = Tail(q) /\ flag' = [flag EXCEPT ![w] = FALSE]
              ELSE IF stop THEN /\ pc' = [pc EXCEPT ![w] = "exit"] /\ flag' = [flag EXCEPT ![w] = FALSE] /\ UNCHANGED <<task, q>>
              ELSE /\ pc' = [pc EXCEPT ![w] = "sleep"] /\ flag' = [flag EXCEPT ![w] = TRUE] /\ UNCHANGED <<task, q>>
           /\ UNCHANGED <<stop, mpc, mop, mr, nops, next, dropped, res, owe>>
Begin(w) == /\ pc[w] = "got" /\ pc' = [pc EXCEPT ![w] = "run"]
            /\ UNCHANGED <<q, stop, task, flag, woken, mpc, mop, mwoken, mr, nops, next, dropped, res, owe>>
Kid(w) == /\ pc[w] = "run" /\ task[w] <= Kids /\ next <= MaxT
          /\ pc' = [pc EXCEPT ![w] = "kid"] /\ q' = Append(q, next) /\ next' = next + 1 /\ owe' = owe \cup {w}
          /\ UNCHANGED <<stop, task, flag, woken, mpc, mop, mwoken, mr, nops, dropped, res>>
Sleeping == {w \in W : pc[w] = "sleep" /\ w \notin woken}
NotifyOne == IF Sleeping = {} THEN woken' = woken ELSE \E w \in Sleeping : woken' = woken \cup {w}
Notify(x) == /\ x \in owe /\ owe' = owe \ {x} /\ NotifyOne
             /\ UNCHANGED <<q, stop, pc, task, flag, mpc, mop, mwoken, mr, nops, next, dropped, res>>
Finish(w) == /\ \/ pc[w] = "run" /\ (task[w] > Kids \/ next > MaxT)
                \/ pc[w] = "kid" /\ w \notin owe
             /\ pc' = [pc EXCEPT ![w] = "top"] /\ res' = res \cup {task[w]} /\ task' = [task EXCEPT ![w] = 0]
             /\ UNCHANGED <<q, stop, flag, woken, mpc, mop, mwoken, mr, nops, next, dropped, owe>>
\* the client
MCall(o, t) == /\ mpc = "idle" /\ nops < MaxOps /\ 0 \notin owe
               /\ mpc' = "called" /\ mop' = [op |-> o, t |-> t] /\ nops' = nops + 1 /\ next' = IF t = 0 THEN next ELSE next + 1
               /\ UNCHANGED <<q, stop, pc, task, flag, woken, mwoken, mr, dropped, res, owe>>
MCalls == \/ next <= MaxT /\ (MCall("sub", next) \/ MCall("prio", next))
          \/ MCall("wait", 0) \/ MCall("kill", 0) \/ MCall("size", 0)
          \/ mpc = "idle" /\ ~stop /\ 0 \notin owe /\ mpc' = "called" /\ mop' = [op |-> "del", t |-> 0] /\ nops' = MaxOps
             /\ UNCHANGED <<q, stop, pc, task, flag, woken, mwoken, mr, next, dropped, res, owe>>
MKeep == UNCHANGED <<stop, pc, task, flag, nops, next, mop>>
MSub == /\ mpc = "called" /\ mop.op \in {"sub", "prio"}
        /\ q' = (IF mop.op = "sub" THEN Append(q, mop.t) ELSE <<mop.t>> \o q) /\ mpc' = "ready" /\ mr' = 0 /\ owe' = owe \cup {0}
        /\ MKeep /\ UNCHANGED <<woken, mwoken, dropped, res>>
MWait == /\ mpc = "called" /\ mop.op = "wait"
         /\ IF AllFlags THEN mpc' = "ready" /\ mr' = 0 ELSE mpc' = "waiting" /\ mr' = mr
         /\ mwoken' = FALSE
         /\ MKeep /\ UNCHANGED <<q, woken, dropped, res, owe>>
MWoken == /\ mpc = "waiting" /\ mwoken /\ mpc' = "ready" /\ mr' = 1 /\ mwoken' = FALSE
          /\ MKeep /\ UNCHANGED <<q, woken, dropped, res, owe>>
MKill == /\ (mpc = "called" /\ mop.op = "kill") \/ (mpc = "killing" /\ mwoken)
         /\ dropped' = dropped \cup Elems(q) /\ q' = <<>> /\ mwoken' = FALSE
         /\ IF AllFlags THEN mpc' = "ready" /\ mr' = 0 ELSE mpc' = "killing" /\ mr' = mr
         /\ MKeep /\ UNCHANGED <<woken, res, owe>>
MSize == /\ mpc = "called" /\ mop.op = "size" /\ mpc' = "ready" /\ mr' = Len(q)
         /\ MKeep /\ UNCHANGED <<q, woken, mwoken, dropped, res, owe>>
MDel == /\ mpc = "called" /\ mop.op = "del" /\ stop' = TRUE /\ mpc' = "deleting"
        /\ UNCHANGED <<q, pc, task, flag, woken, mop, mwoken, mr, nops, next, dropped, res, owe>>
MDelNotify == /\ mpc = "deleting" /\ woken' = woken \cup {w \in W : pc[w] = "sleep"} /\ mpc' = "joining"
              /\ UNCHANGED <<q, stop, pc, task, flag, mop, mwoken, mr, nops, next, dropped, res, owe>>
MJoined == /\ mpc = "joining" /\ (\A w \in W : pc[w] = "exit") /\ mpc' = "ready" /\ mr' = 0
           /\ UNCHANGED <<q, stop, pc, task, flag, woken, mop, mwoken, nops, next, dropped, res, owe>>
MReturn == /\ mpc = "ready" /\ 0 \notin owe /\ mpc' = (IF stop THEN "gone" ELSE "idle") /\ mr' = 0 /\ mop' = [op |-> "none", t |-> 0]
           /\ UNCHANGED <<q, stop, pc, task, flag, woken, mwoken, nops, next, dropped, res, owe>>
Next == \/ \E w \in W : Look(w) \/ Begin(w) \/ Kid(w) \/ Finish(w)
        \/ \E x \in 0..N : Notify(x)
        \/ MCalls \/ MSub \/ MWait \/ MWoken \/ MKill \/ MSize \/ MDel \/ MDelNotify \/ MJoined \/ MReturn
\* the client goes on to destroy the pool
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ \A w \in W : WF_vars(Look(w)) /\ WF_vars(Begin(w)) /\ WF_vars(Kid(w)) /\ WF_vars(Finish(w)) /\ WF_vars(Notify(w))
        /\ WF_vars(Notify(0)) /\ WF_vars(MCalls) /\ WF_vars(MSub) /\ WF_vars(MWait) /\ WF_vars(MWoken) /\ WF_vars(MKill) /\ WF_vars(MSize)
        /\ WF_vars(MDel) /\ WF_vars(MDelNotify) /\ WF_vars(MJoined) /\ WF_vars(MReturn)
Terminates == <>(mpc = "gone")
AllDone == mpc = "gone" => /\ \A t \in 1..(next - 1) : t \in res \cup dropped
                           /\ res \cap dropped = {}
\* refinement
AbsOps == LET c == IF mpc = "idle" \/ mpc = "gone" THEN <<>>
                   ELSE "main" :> [op |-> mop.op, t |-> IF mop.t = 0 THEN 0 - 1 ELSE mop.t,
                                   ph |-> IF (mpc = "waiting" /\ mwoken) THEN "ready" ELSE IF mpc = "joining" THEN "deleting" ELSE mpc,
                                   r |-> IF (mpc = "waiting" /\ mwoken) THEN 1 ELSE mr]
          IN c
Fresh == Cardinality({w \in W : pc[w] = "fresh"})
Idle == Cardinality({w \in W : pc[w] \in {"sleep", "exit"}})
Got == {task[w] : w \in {x \in W : pc[x] = "got"}}
Run == {task[w] : w \in {x \in W : pc[x] \in {"run", "kid"}}}
Ended == Cardinality({w \in W : pc[w] = "top"})
A == INSTANCE ThreadPool WITH n <- N, q <- q, fresh <- Fresh, idle <- Idle, got <- Got, run <- Run, ended <- Ended,
       res <- res, dropped <- dropped, stop <- stop, ops <- AbsOps
AbsVars == <<q, Fresh, Idle, Got, Run, Ended, res, dropped, stop, AbsOps>>
\* one step of the pool is at most two steps of the specification: a thread becomes idle and takes the next task
AbsIdleTake == /\ q # <<>> /\ q' = Tail(q) /\ Got' = Got \cup {Head(q)} /\ Idle' = Idle
               /\ \/ Fresh' = Fresh - 1 /\ Ended' = Ended
                  \/ Ended' = Ended - 1 /\ Fresh' = Fresh
               /\ AbsOps' = A!Woken /\ UNCHANGED <<Run, res, dropped, stop>>
\* a running task submits one
AbsKid == /\ \E w \in W : task[w] \in Run /\ q' = Append(q, next)
          /\ UNCHANGED <<Fresh, Idle, Got, Run, Ended, res, dropped, stop, AbsOps>>
AbsCall == \E o \in {"sub", "prio", "wait", "kill", "size", "del"}, t \in {0 - 1} \cup 1..MaxT : A!Call("main", o, t)
AbsReturn == \E r \in 0..MaxT : A!Return("main", r)
\* kill_all drops the queue and finds all threads idle in one critical section
AbsKillAtOnce == /\ A!At1("main", "kill", "called") /\ A!AllIdle /\ A!Drop /\ A!Ready("main", 0)
                 /\ UNCHANGED <<Fresh, Idle, Got, Run, Ended, res, stop>>
AbsNext == \/ \E t \in 1..MaxT : A!Start(t) \/ A!End(t)
           \/ A!Hidden(LAMBDA t : <<0, 0>>) \/ AbsCall \/ AbsReturn \/ AbsIdleTake \/ AbsKid \/ AbsKillAtOnce
Refines == [][AbsNext]_AbsVars
Safe == A!TypeOK /\ A!OnceOK
=============================================================================
