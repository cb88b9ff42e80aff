------------------------------ MODULE ThreadPool ------------------------------
(* What a pool of threads does, seen by its clients (C10).  Every operation of a client takes effect at one       *)
(* instant between its call and its return.                                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES n,        \* number of threads
          q,        \* waiting tasks, the next one to start first
          fresh,    \* threads which have not looked for work yet (they count as idle)
          idle,     \* threads known to be idle
          got,      \* tasks taken by a thread, not started yet
          run,      \* running tasks
          ended,    \* threads which completed a task and are about to become idle
          res,      \* completed tasks
          dropped,  \* cancelled tasks
          stop,     \* the pool is being destroyed
          ops       \* operations in progress: client -> [op, t, ph, r] (with Inline, <<client, task>> keeps a call that runs a task); ph is "called", "waiting", "killing" or "ready"
pool == <<n, q, fresh, idle, got, run, ended, res, dropped, stop, ops>>

Inline == n = 0
AllIdle == Inline \/ (got = {} /\ run = {} /\ ended = 0)   \* tasks that clients run themselves do not count
Tasks == {q[k] : k \in 1..Len(q)} \cup got \cup run \cup res \cup dropped
PoolInit(k) == /\ n = k /\ q = <<>> /\ fresh = k /\ idle = 0 /\ got = {} /\ run = {} /\ ended = 0 /\ res = {} /\ dropped = {} /\ stop = FALSE /\ ops = <<>>

\* a client calls / returns
Call(c, o, t) == /\ c \notin DOMAIN ops
                 /\ ops' = (c :> [op |-> o, t |-> t, ph |-> "called", r |-> 0]) @@ ops
                 /\ UNCHANGED <<n, q, fresh, idle, got, run, ended, res, dropped, stop>>
Without(f, c) == [x \in DOMAIN f \ {c} |-> f[x]]
Return(c, r) == /\ c \in DOMAIN ops /\ ops[c].ph = "ready" /\ ops[c].r = r
                /\ ops' = Without(ops, c)
                /\ UNCHANGED <<n, q, fresh, idle, got, run, ended, res, dropped, stop>>
Ready(c, r) == ops' = [ops EXCEPT ![c].ph = "ready", ![c].r = r]
At1(c, o, ph) == c \in DOMAIN ops /\ ops[c].op = o /\ ops[c].ph = ph

\* ordinary tasks go to the end, priority tasks to the front; without threads the call itself runs the task
Submit(c) == /\ ~Inline
             /\ \/ At1(c, "sub", "called") /\ q' = Append(q, ops[c].t)
                \/ At1(c, "prio", "called") /\ q' = <<ops[c].t>> \o q
             /\ Ready(c, 0) /\ UNCHANGED <<n, fresh, idle, got, run, ended, res, dropped, stop>>
Take == /\ q # <<>> /\ idle > 0
        /\ got' = got \cup {Head(q)} /\ q' = Tail(q) /\ idle' = idle - 1
        /\ UNCHANGED <<n, fresh, run, ended, res, dropped, stop, ops>>
Start(t) == /\ t \in got /\ got' = got \ {t} /\ run' = run \cup {t}
            /\ UNCHANGED <<n, q, fresh, idle, ended, res, dropped, stop, ops>>
End(t) == /\ ~Inline /\ t \in run /\ run' = run \ {t} /\ ended' = ended + 1 /\ res' = res \cup {t}
          /\ UNCHANGED <<n, q, fresh, idle, got, dropped, stop, ops>>
InlineStart(c) == /\ Inline /\ (At1(c, "sub", "called") \/ At1(c, "prio", "called")) /\ ops[c].t \notin res
                  /\ run' = run \cup {ops[c].t}
                  \* the client may submit further tasks from within the task
                  /\ ops' = (<<c[1], ops[c].t>> :> [ops[c] EXCEPT !.ph = "inline"]) @@ Without(ops, c)
                  /\ UNCHANGED <<n, q, fresh, idle, got, ended, res, dropped, stop>>
InlineEnd(c, t) == /\ Inline /\ t \in run /\ <<c[1], t>> \in DOMAIN ops /\ c \notin DOMAIN ops
                   /\ run' = run \ {t} /\ res' = res \cup {t}
                   /\ ops' = (c :> [ops[<<c[1], t>>] EXCEPT !.ph = "ready"]) @@ Without(ops, <<c[1], t>>)
                   /\ UNCHANGED <<n, q, fresh, idle, got, ended, dropped, stop>>
\* a thread becomes idle: whoever waits is woken
Woken == [c \in DOMAIN ops |-> IF ops[c].ph = "waiting" THEN [ops[c] EXCEPT !.ph = "ready", !.r = 1] ELSE ops[c]]
BecomeIdle == /\ \/ fresh > 0 /\ fresh' = fresh - 1 /\ ended' = ended
                 \/ ended > 0 /\ ended' = ended - 1 /\ fresh' = fresh
              /\ idle' = idle + 1 /\ ops' = Woken
              /\ UNCHANGED <<n, q, got, run, res, dropped, stop>>
\* wait(): false if no thread is at work, else true as soon as a thread becomes idle
Wait(c) == /\ At1(c, "wait", "called")
           /\ IF AllIdle THEN Ready(c, 0) ELSE ops' = [ops EXCEPT ![c].ph = "waiting"]
           /\ UNCHANGED <<n, q, fresh, idle, got, run, ended, res, dropped, stop>>
Drop == /\ dropped' = dropped \cup {q[k] : k \in 1..Len(q)} /\ q' = <<>>
\* kill_all(): forgets all waiting tasks at once and, until no task is running, those which are submitted meanwhile
KillBegin(c) == /\ At1(c, "kill", "called") /\ Drop /\ ops' = [ops EXCEPT ![c].ph = "killing"]
                /\ UNCHANGED <<n, fresh, idle, got, run, ended, res, stop>>
KillMore(c) == /\ At1(c, "kill", "killing") /\ q # <<>> /\ Drop
               /\ UNCHANGED <<n, fresh, idle, got, run, ended, res, stop, ops>>
KillEnd(c) == /\ At1(c, "kill", "killing") /\ AllIdle /\ Drop /\ Ready(c, 0)
              /\ UNCHANGED <<n, fresh, idle, got, run, ended, res, stop>>
QueueSize(c) == /\ At1(c, "size", "called") /\ Ready(c, Len(q))
                /\ UNCHANGED <<n, q, fresh, idle, got, run, ended, res, dropped, stop>>
\* the future of a task is ready when the task is completed or cancelled
Get(c, value, broken) == /\ At1(c, "get", "called")
          /\ \/ ops[c].t \in res /\ Ready(c, value)
             \/ ops[c].t \in dropped /\ Ready(c, broken)
          /\ UNCHANGED <<n, q, fresh, idle, got, run, ended, res, dropped, stop>>
\* destruction completes all accepted tasks
DelBegin(c) == /\ At1(c, "del", "called") /\ stop' = TRUE /\ ops' = [ops EXCEPT ![c].ph = "deleting"]
               /\ UNCHANGED <<n, q, fresh, idle, got, run, ended, res, dropped>>
DelEnd(c) == /\ At1(c, "del", "deleting") /\ AllIdle /\ q = <<>> /\ Ready(c, 0)
             /\ UNCHANGED <<n, q, fresh, idle, got, run, ended, res, dropped, stop>>
Hidden(Fut(_)) == \/ Take \/ BecomeIdle
                  \/ \E c \in DOMAIN ops : Submit(c) \/ Wait(c) \/ KillBegin(c) \/ KillMore(c) \/ KillEnd(c) \/ QueueSize(c)
                                           \/ Get(c, Fut(ops[c].t)[1], Fut(ops[c].t)[2]) \/ DelBegin(c) \/ DelEnd(c)

TypeOK == /\ fresh + idle + Cardinality(got) + (IF Inline THEN 0 ELSE Cardinality(run)) + ended = n
          /\ Cardinality(got \cup run) <= n \/ Inline
OnceOK == /\ got \cap run = {} /\ got \cap res = {} /\ run \cap res = {} /\ dropped \cap (got \cup run \cup res) = {}
          /\ \A j, k \in 1..Len(q) : j # k => q[j] # q[k]
          /\ \A k \in 1..Len(q) : q[k] \notin got \cup run \cup res \cup dropped
=============================================================================
