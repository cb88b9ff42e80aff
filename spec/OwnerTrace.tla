------------------------------ MODULE OwnerTrace ------------------------------
(* Checks recorded processes against Owner.  Events: "dir" (a new directory), "proc" [fns, resume] (a process begins),   *)
(* "mod" [a] (a file of ff_save is created, replaced, extended, renamed or removed), "valid" / "invalid" (the validation *)
(* file is put in place / removed), "rb" (the reconstruction begins), "eval" (a probe after that), "res" [n, full] (results; all are due),  *)
(* "fin" [rc] (exit status; 77: the process was made to die).  Whether the values of two black boxes differ is decided by comparing the          *)
(* functions exactly, as rational functions over the rationals.                                                           *)
EXTENDS Owner, PolyZ, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<ovars, l>>
Ev == Trace[l]
Req(name, c) == IF c THEN TRUE ELSE PrintT(<<"WHY", l, name>>) /\ FALSE
SameFn(f, g) == IF f.num = <<>> \/ g.num = <<>> THEN f.num = g.num ELSE RFSame(RFZ(f), RFZ(g))
SameBox(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameFn(a[i], b[i])
TraceInit == l = 1 /\ OwnerInit(<<>>)
Next1 ==
  CASE Ev.e = "dir" -> owner' = <<>> /\ valid' = FALSE /\ me' = <<>> /\ verdict' = "none"
    [] Ev.e = "proc" -> OwnerBegin(Ev.fns, Ev.resume, SameBox(owner, Ev.fns))
    [] Ev.e = "mod" -> Req("no saved file is modified when the black box is a different one", MayModify) /\ UNCHANGED ovars
    [] Ev.e = "valid" -> Req("no saved file is modified when the black box is a different one", MayModify) /\ OwnerValid
    [] Ev.e = "invalid" -> Req("no saved file is modified when the black box is a different one", MayModify)
                           /\ Req("the same black box is continued", verdict # "go") /\ OwnerInvalid
    [] Ev.e \in {"rb", "eval", "res"} -> /\ Req("a state of a different black box is not continued", MayGiveResults)
                                         /\ Req("there is a result for every function", Ev.e = "res" => IF Ev.full THEN Ev.n = Len(me) ELSE Ev.n <= Len(me)) /\ UNCHANGED ovars
    [] Ev.e = "fin" -> /\ Req("a different black box is refused with a failure", verdict = "refuse" => Ev.rc = 1)
                       /\ Req("the same black box is never refused", verdict \in {"go", "anew"} => Ev.rc \in {0, 77})
                       /\ OwnerStop
TraceNext == l <= Len(Trace) /\ Next1 /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == l
Complete == LET d == TLCGet("stats").diameter IN
  IF d = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>) ELSE PrintT(<<"REJECTED", d, Trace[d].e>>)
===============================================================================
