------------------------------ MODULE SaveTrace ------------------------------
(* Checks the file-system operations of recorded runs against SaveDisk.  An operation is                                *)
(* [op, to |-> [d, i, k], from |-> [d, i, k]] with d one of "states", "probes", "tmp", "valid", "scan", "other"; "begin"  *)
(* starts a new directory.  Runs may consist of several processes, which may have died.                                  *)
EXTENDS SaveDisk, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, written   \* temporary files: name -> "open" | "full"
tvars == <<dvars, l, written>>
Ev == Trace[l]
Req(name, c) == IF c THEN TRUE ELSE PrintT(<<"WHY", l, name>>) /\ FALSE
E0 == [x \in {} |-> ""]
TraceInit == l = 1 /\ DiskInit({}) /\ written = E0
On(S, e) == [S EXCEPT ![e.i] = @ \cup {e.k}]
Next1 ==
  IF Ev.op = "begin" THEN /\ states' = [i \in 0..(Ev.items - 1) |-> {}] /\ probes' = [i \in 0..(Ev.items - 1) |-> {}] /\ valid' = FALSE /\ written' = E0
  ELSE IF Ev.op = "unlink" THEN /\ valid' = (IF Ev.to.d = "valid" THEN FALSE ELSE valid)
                                /\ Req("no file of a saved state is removed", valid => Ev.to.d \in {"valid", "tmp"})
                                /\ UNCHANGED <<states, probes, written>>
  ELSE IF Ev.op = "open" THEN
       /\ Req("a file of a saved state is written under another name first", valid => Ev.to.d \in {"tmp", "scan"})
       /\ states' = IF Ev.to.d = "states" THEN On(states, Ev.to) ELSE states
       /\ probes' = IF Ev.to.d = "probes" THEN On(probes, Ev.to) ELSE probes
       /\ written' = IF Ev.to.d = "tmp" THEN (Ev.to.n :> "open") @@ written ELSE written
       /\ UNCHANGED valid
  ELSE IF Ev.op = "append" THEN
       /\ Req("only the probe file of a function grows", Ev.to.d = "probes" /\ Ev.to.k \in probes[Ev.to.i])
       /\ UNCHANGED <<dvars, written>>
  ELSE IF Ev.op = "write" THEN
       /\ Req("a file is complete when it gets its name", Ev.to.d = "tmp" => Ev.to.n \in DOMAIN written)
       /\ written' = IF Ev.to.d = "tmp" THEN (Ev.to.n :> "full") @@ written ELSE written
       /\ UNCHANGED dvars
  ELSE /\ Ev.op = "rename"
       /\ Req("a file is complete when it gets its name", Ev.from.d = "tmp" => Ev.from.n \in DOMAIN written /\ written[Ev.from.n] = "full")
       /\ written' = IF Ev.from.d = "tmp" THEN [x \in DOMAIN written \ {Ev.from.n} |-> written[x]] ELSE written
       /\ Req("the file of a function does not become that of another", Ev.from.d \in {"states", "probes"} => Ev.from.d = Ev.to.d /\ Ev.from.i = Ev.to.i)
       /\ Req("files are renamed to the next field", Ev.from.d \in {"states", "probes"} /\ Ev.from.k \in (IF Ev.from.d = "states" THEN states ELSE probes)[Ev.from.i] => Ev.from.k + 1 = Ev.to.k)
       /\ states' = IF Ev.to.d # "states" THEN states ELSE IF Ev.from.d = "tmp" THEN On(states, Ev.to) ELSE [states EXCEPT ![Ev.to.i] = MoveIn(@, Ev.from.k, Ev.to.k)]
       /\ probes' = IF Ev.to.d # "probes" THEN probes ELSE IF Ev.from.d = "tmp" THEN On(probes, Ev.to) ELSE [probes EXCEPT ![Ev.to.i] = MoveIn(@, Ev.from.k, Ev.to.k)]
       /\ valid' = (valid \/ Ev.to.d = "valid")
TraceNext == /\ l <= Len(Trace) /\ Next1
             /\ Req("there is exactly one file of each kind for every function", Continuable')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == l
Complete == LET d == TLCGet("stats").diameter IN
  IF d = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>) ELSE PrintT(<<"REJECTED", d, Trace[d].op>>)
=============================================================================
