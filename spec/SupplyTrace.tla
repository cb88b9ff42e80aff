------------------------------ MODULE SupplyTrace ------------------------------
(* Checks recorded reconstructions from supplied probes against Supply.  A run consists of several processes, between    *)
(* which the environment (the check) answers requests.  Lines: "sc" (a new run: n, items, fns, anchors, shifts), "file"   *)
(* [f, z] (lines <<order, t, values>> that are appended to the file of field f), "proc" [resume] (a process begins),       *)
(* "saved" [i, f, z] (probes <<order, t, value>> in the state that function i left for field f), events of the process     *)
(* (prime, eb, feed, ie, re, res), "req" [z] (the request file: <<order, t, point>>), "fin" [rc], "over".                  *)
EXTENDS Supply, Primes, PolyZ, TLC, Sequences, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sc,
          value,    \* field -> supplied probe -> values of the functions
          at,       \* item -> field it is in, as far as known
          from,     \* item -> field it was in when the process began
          done,     \* items that are finished
          eaten,    \* item -> <<field, probe, value>> it was ever given
          asked, ended, complete
tvars == <<svars, l, sc, value, at, from, done, eaten, asked, ended, complete>>
Ev == Trace[l]
Req(name, c) == IF c THEN TRUE ELSE PrintT(<<"WHY", l, name>>) /\ FALSE
Items == 0..(sc.items - 1)
P(f) == Primes[f + 1]
SetOf(s) == {s[k] : k \in DOMAIN s}
Pair(x) == <<x[1], x[2]>>
\* the point that belongs to a probe of field f
Point(f, q) ==
  IF sc.n = 1 THEN <<q[2]>> ELSE
  LET p == P(f) a == sc.anchors[f + 1] s == sc.shifts[f + 1] IN
  [v \in 1..sc.n |-> IF v = 1 THEN BAddM(q[2], s[1], p) ELSE BAddM(BMulM(q[2], BPowM(a[v - 1], BOfInt(q[1][v - 1]), p), p), s[v], p)]
\* results
OrderedExps(s, ord) == [q \in 1..Len(s) |-> <<s[q][1], s[q][2], [v \in 1..sc.n |-> s[q][3][CHOOSE w \in 1..sc.n : ord[w] = v - 1]]>>]
Denotes(r) == RFZ([num |-> OrderedExps(r.num, r.order), den |-> OrderedExps(r.den, r.order)])
Correct(r, f) == LET t == RFZ(f) z == Denotes(r) IN r.factors = <<>> /\ IF t.n = {} THEN z.n = {} /\ z.d # {} ELSE RFSame(z, t)

Clear == /\ field' = -1 /\ over' = TRUE /\ kept' = <<>> /\ given' = <<>> /\ open' = {}
NewRun == /\ Req("every run completes", complete)
          /\ sc' = Ev /\ supplied' = <<>> /\ value' = <<>> /\ Clear
          /\ at' = [i \in 0..(Ev.items - 1) |-> 0] /\ from' = at' /\ done' = {} /\ eaten' = [i \in 0..(Ev.items - 1) |-> {}]
          /\ asked' = {} /\ ended' = FALSE /\ complete' = FALSE
\* with the tables extended
File == /\ LET old == IF Ev.f \in DOMAIN value THEN value[Ev.f] ELSE <<>>
               new == [q \in {Pair(x) : x \in SetOf(Ev.z)} |-> (CHOOSE x \in SetOf(Ev.z) : Pair(x) = q)[3]] IN
           /\ value' = (Ev.f :> (old @@ new)) @@ value
           /\ supplied' = (Ev.f :> (DOMAIN old \cup DOMAIN new)) @@ supplied
        /\ UNCHANGED <<field, kept, given, open, over, sc, at, from, done, eaten, asked, ended, complete>>
Proc == /\ Req("no process follows a complete reconstruction", ~complete)
        /\ field' = -1 /\ over' = FALSE /\ open' = {} /\ asked' = {} /\ ended' = FALSE
        /\ kept' = [i \in Items |-> {}] /\ given' = [i \in Items |-> {}]
        /\ at' = IF Ev.resume THEN at ELSE [i \in Items |-> 0]
        /\ done' = IF Ev.resume THEN done ELSE {}
        /\ eaten' = IF Ev.resume THEN eaten ELSE [i \in Items |-> {}]
        /\ from' = at' /\ UNCHANGED <<supplied, sc, value, complete>>
Saved == /\ Req("the saved probes of a function are probes it was given", \A x \in SetOf(Ev.z) : <<Ev.f, Pair(x), x[3]>> \in eaten[Ev.i])
         /\ kept' = [kept EXCEPT ![Ev.i] = IF Ev.f = at[Ev.i] THEN @ \cup {Pair(x) : x \in SetOf(Ev.z)} ELSE @]
         /\ UNCHANGED <<field, supplied, given, open, over, sc, value, at, from, done, eaten, asked, ended, complete>>
FieldOf(p) == IF \E f \in 1..Len(Primes) : Primes[f] = p THEN (CHOOSE f \in 1..Len(Primes) : Primes[f] = p) - 1 ELSE -2
Prime == LET f == FieldOf(Ev.p) IN
         /\ Req("fields are entered in order", f > field \/ (f = field /\ \A i \in Items : given[i] = {}))
         /\ field' = f
         /\ given' = [i \in Items |-> {}]
         /\ open' = {i \in Items \ done : at[i] <= f}
         /\ UNCHANGED <<supplied, kept, over, sc, value, at, from, done, eaten, asked, ended, complete>>
KeepIn(f, i) == IF from[i] = f THEN kept[i] ELSE {}
Feed == LET z == {<<Ev.o[k], Ev.t[k]>> : k \in 1..Len(Ev.t)} IN
        /\ Req("probes are used in the field they were supplied for", Ev.pr = field /\ \A q \in z : q \in Known(field))
        /\ Req("a function is given the value that was supplied for it", \A k \in 1..Len(Ev.t) : value[field][<<Ev.o[k], Ev.t[k]>>][Ev.i + 1] = Ev.y[k])
        /\ Req("a supplied probe is used once", Cardinality(z) = Len(Ev.t) /\ z \cap given[Ev.i] = {} /\ z \cap KeepIn(field, Ev.i) = {})
        /\ given' = [given EXCEPT ![Ev.i] = @ \cup z]
        /\ eaten' = [eaten EXCEPT ![Ev.i] = @ \cup {<<field, <<Ev.o[k], Ev.t[k]>>, Ev.y[k]>> : k \in 1..Len(Ev.t)}]
        /\ UNCHANGED <<field, supplied, kept, open, over, sc, value, at, from, done, asked, ended, complete>>
IEnd == /\ at' = [at EXCEPT ![Ev.i] = IF Ev.pr > @ THEN Ev.pr ELSE @]
        /\ done' = IF Ev.done THEN done \cup {Ev.i} ELSE done
        /\ open' = IF Ev.done \/ Ev.pr > field THEN open \ {Ev.i} ELSE open
        /\ UNCHANGED <<field, supplied, kept, given, over, sc, value, from, eaten, asked, ended, complete>>
\* the requests: probes that were not supplied yet, at the points they belong to, and only when nothing is left
AllKept == UNION {KeepIn(field, j) : j \in Items}
ReqFile == LET z == {Pair(x) : x \in SetOf(Ev.z)} IN
           /\ Req("there are requests only while a function is not complete", open # {} /\ ~ended)
           /\ Req("each request is made once", Cardinality(z) = Len(Ev.z))
           /\ Req("nothing is requested that was supplied", z \cap Known(field) = {})
           /\ Req("requests are made for the order and point they belong to",
                  \A x \in SetOf(Ev.z) : Len(x[1]) = sc.n - 1 /\ x[3] = Point(field, Pair(x)))
           /\ Req("probes are requested when the supplied ones are used up",
                  \A i \in open, q \in Known(field) : q \in given[i] \cup AllKept)
           /\ Req("something is requested", z # {})
           /\ asked' = z /\ over' = TRUE
           /\ UNCHANGED <<field, supplied, kept, given, open, sc, value, at, from, done, eaten, ended, complete>>
Results == /\ Req("there is one result for every function", Len(Ev.fs) = sc.items)
           /\ Req("each result equals the supplied function", \A i \in 1..Len(Ev.fs) : Correct(Ev.fs[i], sc.fns[i]))
           /\ UNCHANGED <<svars, sc, value, at, from, done, eaten, asked, ended, complete>>
REnd == /\ Req("a reconstruction that reports completion has finished all functions", Ev.done => Items \ done \subseteq {i \in Items : sc.fns[i + 1].num = <<>>})
        /\ ended' = Ev.done /\ UNCHANGED <<svars, sc, value, at, from, done, eaten, asked, complete>>
\* the process is over: it asked for probes, or it is complete and its results are right
Fin == /\ Req("a process that cannot continue asks for probes", ended \/ asked # {})
       /\ complete' = ended /\ over' = TRUE
       /\ UNCHANGED <<field, supplied, kept, given, open, sc, value, at, from, done, eaten, asked, ended>>
TraceInit == /\ l = 1 /\ sc = [items |-> 0] /\ value = <<>> /\ at = <<>> /\ from = <<>> /\ done = {} /\ eaten = <<>> /\ asked = {} /\ ended = FALSE /\ complete = TRUE
             /\ field = -1 /\ supplied = <<>> /\ kept = <<>> /\ given = <<>> /\ open = {} /\ over = TRUE
Next1 == CASE Ev.e = "sc" -> NewRun
           [] Ev.e = "file" -> File
           [] Ev.e = "proc" -> Proc
           [] Ev.e = "saved" -> Saved
           [] Ev.e = "prime" -> Prime
           [] Ev.e = "eb" -> Req("no point is evaluated when probes are supplied", FALSE) /\ UNCHANGED tvars
           [] Ev.e = "feed" -> Feed
           [] Ev.e = "ie" -> IEnd
           [] Ev.e = "re" -> REnd
           [] Ev.e = "res" -> Results
           [] Ev.e = "req" -> ReqFile
           [] Ev.e = "bad" -> Req("files consist of complete lines of their form", FALSE) /\ UNCHANGED tvars
           [] Ev.e = "fin" -> Fin
TraceNext == l <= Len(Trace) /\ Next1 /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == l
Complete == LET d == TLCGet("stats").diameter IN
  IF d = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>) ELSE PrintT(<<"REJECTED", d, Trace[d].e>>)
===============================================================================
