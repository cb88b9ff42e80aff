--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Explains histories of the real pool (harness/pool.cpp) by ThreadPool: the effects of calls and the threads'    *)
(* own steps are not visible and are found by TLC.  Every "pool" line of the file starts a history; a history     *)
(* whose last line is reached prints <<"DONE", line of its start>>.                                               *)
EXTENDS ThreadPool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Single == IOEnv.SINGLE = "1"          \* one history only: report how far it can be explained
VARIABLES l, s
tv == <<pool, l, s>>
Ev == Trace[l]
C == <<Ev.c, 0 - 1>>
Is(e) == l <= Len(Trace) /\ Ev.e = e
Starts == {k \in 1..Len(Trace) : Trace[k].e = "pool"}
TraceInit == \E k \in Starts : s = k /\ l = k + 1 /\ PoolInit(Trace[k].n) /\ (k = 1 => TLCSet(1, 1))
\* value of a future: a task which fails hands its number on as an exception
Value(t) == <<1000 + t, 0 - 2>>
Visible == \/ Is("call") /\ Call(C, Ev.op, Ev.t)
           \/ Is("ret") /\ Return(C, IF Ev.r >= 5000 THEN Ev.r - 4000 ELSE Ev.r)
           \/ Is("start") /\ (Start(Ev.t) \/ (C \in DOMAIN ops /\ ops[C].t = Ev.t /\ InlineStart(C)))
           \/ Is("end") /\ (End(Ev.t) \/ InlineEnd(C, Ev.t))
           \/ Is("over") /\ ops = <<>> /\ q = <<>> /\ AllIdle /\ UNCHANGED pool /\ (IF Single THEN TRUE ELSE PrintT(<<"DONE", s>>))
TraceNext == \/ Visible /\ l' = l + 1 /\ s' = s /\ (IF Single THEN TLCSet(1, IF TLCGet(1) > l THEN TLCGet(1) ELSE l) ELSE TRUE)
             \/ l <= Len(Trace) /\ Ev.e \notin {"pool"} /\ Hidden(Value) /\ UNCHANGED <<l, s>>
TraceSpec == TraceInit /\ [][TraceNext]_tv
Inv == TypeOK /\ OnceOK
Complete == PrintT(<<"ACCEPTED", Len(Trace)>>) /\ (IF Single THEN PrintT(<<"REACHED", TLCGet(1)>>) ELSE TRUE)
=============================================================================
