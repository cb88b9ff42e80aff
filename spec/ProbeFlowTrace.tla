---------------------------- MODULE ProbeFlowTrace ----------------------------
(* Checks executions of the real library, recorded by harness/recon.cpp, against ProbeFlow.                       *)
(* The trace file (environment variable TRACE) holds any number of runs; each starts with an "sc" line written by *)
(* the check that describes the scenario (functions probed, options).  ASPECTS (environment) selects which groups *)
(* of requirements are enforced: flow (C03), order (C04), bunch (C05), line (C20), result (C01), resume (C07/8), *)
(* shift (C19).                                                                                                   *)
(* A run may consist of several processes: an "sc" line with chain > 0 begins a process which resumes from what   *)
(* the one before it saved; hist is what is known about the saved state.                                          *)
EXTENDS ProbeFlow, Primes, PolyZ, Shift, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspects == IOEnv.ASPECTS
RECURSIVE HasSub(_, _, _)
HasSub(s, t, k) == IF k + Len(t) - 1 > Len(s) THEN FALSE ELSE SubSeq(s, k, k + Len(t) - 1) = t \/ HasSub(s, t, k + 1)
On(a) == HasSub(Aspects, a, 1)
OnFlow == On("flow")   OnOrder == On("order")   OnBunch == On("bunch")   OnLine == On("line")   OnResult == On("result")
OnResume == On("resume")   OnShift == On("shift")

VARIABLES l,      \* next line of the trace
          sc,     \* the scenario line of the run
          line,   \* the line on which the current probes lie: [a |-> anchor points, s |-> shift]
          st,     \* [changing: an announcement is going on, over: the process has ended, rec: reconstruct() was called,
                  \*  first: no point was evaluated since, from: the field in which the process has to begin]
          hist    \* [level, hi: item -> first field it still needs, as far as known and at most, fin: items that
                  \*  may be finished although it was not seen, lines: field -> its last line, crashed: the process before died, reach: last field entered, tried: shifts tried in the scan, nonzero: items given a nonzero value]
tvars == <<pfvars, l, sc, line, st, hist>>

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e
\* requirement c of group a; when it fails the reason is printed (the trace is then rejected at this line)
Req(on, name, c) == IF ~on THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<<"WHY", l, name>>) /\ FALSE
P(f) == Primes[f + 1]
Items == 0..(sc.items - 1)
KeepPF == UNCHANGED pfvars
Rest == UNCHANGED <<sc, line, st, hist>>
Min0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
MinLevel == Min0({hist.level[i] : i \in Items \ finished})

TraceInit == /\ l = 1 /\ PFInit({}) /\ sc = [items |-> 0] /\ line = [a |-> <<>>, s |-> <<>>]
             /\ st = [changing |-> FALSE, over |-> TRUE, rec |-> FALSE, first |-> TRUE, from |-> 0, more |-> 0]
             /\ hist = [level |-> Empty, lines |-> Empty, tried |-> <<>>, crashed |-> FALSE, reach |-> 0, nonzero |-> {}, fin |-> {}, hi |-> Empty]

\* a new run or a further process of a run begins
Chained == "chain" \in DOMAIN Ev /\ Ev.chain > 0
\* When a process ends, the state of a function which was interpolating, or had been given a vanishing value, may be
\* further than known.  The field in which the process ended is begun again even if no function needs it any more.
Maybe == {i \in Items : busy[i] > 0} \cup unsure
MaybeFin == hist.fin \cup {i \in Items : busy[i] > 0}
Hi(i) == LET h == hist.level[i] + (IF i \in Maybe THEN 1 ELSE 0) IN IF h > hist.hi[i] THEN h ELSE hist.hi[i]
MinHi == LET S == Items \ finished IN Min0({Hi(i) : i \in IF S \subseteq MaybeFin THEN S ELSE S \ MaybeFin})
\* A function that vanished in three fields is finished when the state is read again.
Quiet == {i \in Items \ finished : sc.resume /\ ((i \notin hist.nonzero /\ hist.hi[i] >= 3) \/ i \in hist.fin)}
From == IF hist.reach < MinLevel THEN hist.reach ELSE MinLevel
Start == /\ Is("sc")
         /\ Req(TRUE, "the previous run did not end normally", st.over)
         /\ sc' = Ev /\ line' = [a |-> <<>>, s |-> <<>>]
         /\ st' = [changing |-> FALSE, over |-> FALSE, rec |-> FALSE, first |-> TRUE,
                   from |-> IF Chained THEN From ELSE 0, more |-> IF Chained THEN MinHi ELSE 0]
         /\ hist' = IF Chained THEN [hist EXCEPT !.hi = [i \in Items |-> Hi(i)], !.fin = MaybeFin] ELSE [level |-> [i \in 0..(Ev.items - 1) |-> 0], lines |-> Empty, tried |-> <<>>, crashed |-> FALSE, reach |-> 0, nonzero |-> {}, fin |-> {}, hi |-> [i \in 0..(Ev.items - 1) |-> 0]]
         /\ field' = -1 /\ told' = -1 /\ running' = Empty /\ vals' = Empty /\ bunch' = Empty
         /\ given' = [i \in 0..(Ev.items - 1) |-> {}] /\ open' = {}
         /\ busy' = [i \in 0..(Ev.items - 1) |-> 0] /\ owed' = [i \in 0..(Ev.items - 1) |-> {}]
         /\ finished' = (IF Chained THEN finished ELSE {})
         /\ gone' = [i \in 0..(Ev.items - 1) |-> {}] /\ unsure' = {} /\ duty' = Empty
Crash == /\ Is("crash") /\ st' = [st EXCEPT !.over = TRUE] /\ hist' = [hist EXCEPT !.crashed = TRUE] /\ KeepPF /\ UNCHANGED <<sc, line>>

\* the scan for a shift: hist.tried lists the shifted variables of the probes of field 0 in the order of their use
Supports(f) == {{v \in 1..sc.n : f.num[q][3][v] > 0} : q \in 1..Len(f.num)} \cup (IF f.num = <<>> THEN {} ELSE {{v \in 1..sc.n : f.den[q][3][v] > 0} : q \in 1..Len(f.den)})
Fits(S) == \A i \in Items : LET sup == Supports(sc.fns[i + 1]) IN Works(S, sup)
Shifted(s) == {v \in 1..Len(s) : s[v] # "0"}
Scanning == OnShift /\ sc.scan /\ sc.n > 1 /\ sc.items > 0
Last(s) == s[Len(s)]
\* the first line is that of the determination of the degrees (all variables), the others are candidates
Candidates == {hist.tried[k] : k \in 2..Len(hist.tried)}
ScanOver == Len(hist.tried) > 1 /\ Fits(Last(hist.tried))
ShiftLine(S) ==
  /\ Req(Scanning /\ field = 0 /\ hist.tried = <<>>, "the degrees are determined with all variables shifted", S = 1..sc.n)
  /\ Req(Scanning /\ field = 0 /\ Len(hist.tried) > 0 /\ ~sc.resume,
         "the shift is the next candidate with the fewest variables, or the one under which all functions can be normalised",
         IF Len(hist.tried) > 1 /\ Fits(Last(hist.tried)) THEN S = Last(hist.tried) ELSE NextOk(S, Candidates, sc.n))
  /\ Req(Scanning /\ field > 0, "only the accepted shift is used", ScanOver /\ S \in {{}, Last(hist.tried)})
ShiftDone == Req(Scanning /\ field = 0 /\ ~sc.resume, "the scan ends with a shift under which all functions can be normalised", ScanOver)
TriedAfter(S) == IF ~sc.scan \/ field # 0 THEN hist.tried
                 ELSE IF Len(hist.tried) > 1 /\ S = Last(hist.tried) THEN hist.tried ELSE Append(hist.tried, S)
\* the black box is being told about a prime field, which is the current one
FieldOf(p) == IF field + 2 <= Len(Primes) /\ Primes[field + 2] = p THEN field + 1
              ELSE IF \E f \in 1..Len(Primes) : Primes[f] = p THEN (CHOOSE f \in 1..Len(Primes) : Primes[f] = p) - 1 ELSE -2
Limit == IF "limits" \in DOMAIN sc THEN sc.limits[1] ELSE Len(Primes)
MaxField == IF Limit > st.more THEN Limit ELSE st.more
Prime ==
  /\ Is("prime")
  /\ LET f == FieldOf(Ev.p) IN
       /\ Req(OnOrder, "the field is not one of the documented primes", f >= 0)
       /\ Req(OnOrder, "fields are entered in order", f = field + 1 \/ (sc.resume /\ ~st.rec /\ told = field /\ f >= field))
       /\ Req(OnResume, "a run that is resumed begins with the first field that is not complete", (sc.resume /\ ~st.rec) => (f = 0 \/ f + 1 \in {st.from, st.more} \/ finished \cup Quiet = Items))
       /\ Req(OnResume, "the run stops after the given number of fields", "limits" \in DOMAIN sc => f <= MaxField)
       /\ (f > 0 /\ st.rec => ShiftDone)
       /\ Req(OnOrder, "no evaluation is in progress when the field changes", running = Empty)
       /\ Req(OnFlow, "every delivered probe reaches every function that is still open in the field", AllDutiesDone)
       /\ Req(OnFlow, "a function that was given a vanishing value interpolates before the field is left", unsure \cap open = {})
       /\ Req(OnFlow, "a field is left only when no function needs it any more", open = {})
       /\ field' = f
       /\ vals' = Empty /\ bunch' = Empty /\ duty' = Empty /\ running' = IF OnOrder THEN running ELSE Empty
       /\ given' = [i \in DOMAIN given |-> {}] /\ owed' = [i \in DOMAIN owed |-> {}] /\ gone' = [i \in DOMAIN gone |-> {}] /\ unsure' = {}
       /\ open' = IF sc.resume /\ (~st.rec \/ hist.crashed) THEN {} ELSE {i \in (Items \ finished) \ Quiet : hist.hi[i] <= f}
       /\ told' = IF told = f THEN -3 ELSE told
       /\ UNCHANGED <<busy, finished>>
  /\ line' = [a |-> <<>>, s |-> <<>>] /\ st' = [st EXCEPT !.changing = TRUE]
  /\ hist' = IF st.rec THEN [hist EXCEPT !.reach = IF field' > @ THEN field' ELSE @, !.level = [i \in Items |-> IF field' > @[i] THEN field' ELSE @[i]]] ELSE hist
  /\ UNCHANGED sc
Primed ==
  /\ Is("primed")
  /\ Req(OnOrder, "the field does not change while the black box is told about it", Ev.p = P(field))
  /\ IF told # field THEN Told ELSE KeepPF
  /\ st' = [st EXCEPT !.changing = FALSE] /\ UNCHANGED <<sc, line, hist>>

\* evaluations: x is a sequence of points (one per lane), v the values of all functions per lane
PowerOfTwo == {1, 2, 4, 8, 16, 32, 64, 128}
Begin ==
  /\ Is("eb")
  /\ Req(OnOrder, "the black box was told about the current field before it is evaluated", told = field /\ ~st.changing /\ Ev.bbp = P(field))
  /\ Req(OnOrder, "an evaluation takes place in the field that was announced last", Ev.p = P(field))
  /\ Req(OnBunch, "the size of a bunch is a power of two not above the maximum", Len(Ev.x) \in PowerOfTwo /\ Len(Ev.x) <= sc.bunch)
  /\ Req(OnBunch, "the points of a bunch are different", Distinct(Ev.x))
  /\ Req(OnFlow, "no point is evaluated twice in a field", Fresh(Ev.x) /\ Distinct(Ev.x))
  /\ Req(OnResume, "a resumed run continues with the first field that is not complete", (st.rec /\ st.first) => field \in st.from..st.more)
  /\ running' = (Ev.k :> [th |-> Ev.th, pts |-> Ev.x, field |-> field]) @@ running
  /\ UNCHANGED <<field, told, vals, bunch, given, open, busy, owed, finished, gone, unsure, duty>>
  /\ st' = IF st.rec THEN [st EXCEPT !.first = FALSE] ELSE st
  /\ UNCHANGED <<sc, line, hist>>
End ==
  /\ Is("ee")
  /\ Req(OnOrder, "the field does not change during an evaluation", Ev.k \in DOMAIN running /\ Ev.p = P(field) /\ Ev.bbp = P(field))
  /\ IF Ev.k \in DOMAIN running THEN EvalEnd(Ev.k, Ev.v) ELSE KeepPF
  /\ Rest

\* the line of the probes of a field: anchor points and shift
Reduced(v) == [q \in 1..Len(v) |-> BAddM(v[q], "0", P(field))]
Line ==
  /\ Is("line")
  /\ Req(OnLine, "the anchor points of the field are the ones the user set",
         field + 1 \in 1..Len(sc.anchors) => Ev.a = Reduced(sc.anchors[field + 1]))
  /\ Req(OnLine, "the shift of the field is the one the user set",
         field + 1 \in 1..Len(sc.shifts) => Ev.s = Reduced(sc.shifts[field + 1]))
  /\ Req(OnFlow, "every delivered probe reaches every function that is still open in the field", AllDutiesDone)
  /\ Req(OnFlow, "anchor points stay the same within a field", line.a # <<>> => line.a = Ev.a)
  /\ Req(OnFlow, "the shift changes within a field only while a shift is searched", line.s # <<>> /\ line.s # Ev.s => sc.scan)
  /\ Req(OnLine, "a resumed run uses the saved anchor points and shift",
         (sc.resume /\ line.a = <<>> /\ field \in DOMAIN hist.lines) =>
           LET h == hist.lines[field] IN
           h = [a |-> Ev.a, s |-> Ev.s]
           \* a shift that was accepted is chosen anew, saved, and only then used
           \/ (sc.scan /\ field = 0 /\ hist.crashed /\ h.a = Ev.a /\ [q \in DOMAIN Ev.s |-> Ev.s[q] = "0"] = [q \in DOMAIN h.s |-> h.s[q] = "0"]))
  /\ line' = [a |-> Ev.a, s |-> Ev.s]
  /\ ShiftLine(Shifted(Ev.s))
  /\ hist' = [hist EXCEPT !.lines = (field :> [a |-> Ev.a, s |-> Ev.s]) @@ @, !.tried = TriedAfter(Shifted(Ev.s))]
  /\ duty' = Empty
  /\ owed' = [i \in DOMAIN owed |-> {}]
  \* during a scan the functions start again with every candidate
  /\ open' = IF line.s # <<>> THEN Items ELSE open
  /\ finished' = IF line.s # <<>> THEN {} ELSE finished
  /\ gone' = IF line.s # <<>> THEN [i \in DOMAIN gone |-> {}] ELSE gone
  /\ unsure' = IF line.s # <<>> THEN {} ELSE unsure
  /\ UNCHANGED <<field, told, running, vals, bunch, given, busy, sc, st>>

\* the point that belongs to (t, zi_order): x1 = t + s1, xi = t * ai^oi + si
Point(t, o) == LET p == P(field) IN
  [q \in 1..sc.n |-> IF q = 1 THEN BAddM(t, line.s[1], p) ELSE BAddM(BMulM(t, BPowM(line.a[q - 1], BOfInt(o[q - 1]), p), p), line.s[q], p)]
Feed ==
  /\ Is("feed")
  /\ Ev.i \in DOMAIN given
  /\ LET m == Len(Ev.t)
         pts == [j \in 1..m |-> Point(Ev.t[j], Ev.o[j])]
         known == Len(line.s) = sc.n /\ \A j \in 1..m : pts[j] \in DOMAIN vals
         S == IF Len(line.s) = sc.n THEN {pts[j] : j \in 1..m} ELSE {}
         k == IF known THEN vals[pts[1]].k ELSE 0
         new == ~(Ev.th \in DOMAIN duty /\ duty[Ev.th].k = k)
         \* during a scan for a shift every function stops with each candidate; with the accepted one all start again
         again == sc.scan /\ field = 0 /\ finished = Items /\ \A i \in Items : k \notin gone[i]
         late == k \in gone[Ev.i]
         opn == IF again THEN Items ELSE open
         fin == IF again THEN {} ELSE finished
     IN
     /\ Req(OnFlow, "probes of one field are not used in another", Ev.pr = field)
     /\ Req(OnFlow \/ OnLine, "a function is fed points of the requested form that were evaluated in this field", known /\ Len(Ev.y) = m /\ Len(Ev.o) = m)
     /\ Req(OnBunch, "each point of a bunch is used with the value computed for it", known /\ (~sc.fscan => \A j \in 1..m : vals[pts[j]].v[Ev.i + 1] = Ev.y[j]))
     /\ Req(OnFlow, "a function is fed its own value at the point", known /\ (~sc.fscan => \A j \in 1..m : vals[pts[j]].v[Ev.i + 1] = Ev.y[j]))
     /\ Req(OnFlow, "a function is given each probe once", known => S \cap given[Ev.i] = {} /\ Cardinality(S) = m)
     /\ Req(OnFlow \/ OnResume, "a finished function is not fed", late \/ Ev.i \notin fin)
     /\ IF known
        THEN /\ Req(OnFlow, "a delivered probe reaches every function that is still open in the field", new => DutyDone(Ev.th))
             /\ given' = [given EXCEPT ![Ev.i] = @ \cup S]
             /\ open' = IF late THEN open ELSE opn \cup {Ev.i}
             /\ finished' = fin
             /\ gone' = IF again THEN [i \in DOMAIN gone |-> {}] ELSE gone
             /\ unsure' = (IF again THEN {} ELSE unsure) \cup (IF \E j \in 1..m : Ev.y[j] = "0" THEN {Ev.i} ELSE {})
             /\ duty' = IF again THEN (Ev.th :> [k |-> k, items |-> opn]) ELSE IF new THEN (Ev.th :> [k |-> k, items |-> IF late THEN open ELSE open \cup {Ev.i}]) @@ duty ELSE duty
             /\ owed' = IF again THEN [i \in DOMAIN owed |-> {}] ELSE IF new THEN OwedAfter(Ev.th) ELSE owed
             /\ UNCHANGED <<field, told, running, vals, bunch, busy>>
        ELSE KeepPF
  /\ hist' = [hist EXCEPT !.nonzero = IF \E j \in 1..Len(Ev.y) : Ev.y[j] # "0" THEN @ \cup {Ev.i} ELSE @, !.fin = @ \ {Ev.i}]
  /\ UNCHANGED <<sc, line, st>>
IBegin == Is("ib") /\ Ev.i \in DOMAIN busy /\ InterpolateBegin(Ev.i) /\ Rest
IEnd ==
  /\ Is("ie") /\ Ev.i \in DOMAIN busy
  /\ LET leaves == Ev.pr > field IN
     /\ Req(OnFlow, "a probe delivered while the function was busy reaches it if it stays open",
            (busy[Ev.i] = 1 /\ Ev.i \in open /\ ~leaves /\ ~Ev.done) => \A k \in owed[Ev.i] : Reached(Ev.i, k))
     /\ busy' = [busy EXCEPT ![Ev.i] = IF @ > 0 THEN @ - 1 ELSE 0]
     /\ owed' = IF busy[Ev.i] <= 1 THEN [owed EXCEPT ![Ev.i] = {}] ELSE owed
     /\ open' = IF leaves \/ Ev.done THEN open \ {Ev.i} ELSE open
     /\ finished' = IF Ev.done THEN finished \cup {Ev.i} ELSE finished
     /\ unsure' = IF busy[Ev.i] <= 1 THEN unsure \ {Ev.i} ELSE unsure
     /\ gone' = IF (leaves \/ Ev.done) /\ Ev.i \in open THEN [gone EXCEPT ![Ev.i] = DOMAIN bunch] ELSE gone
     /\ hist' = [hist EXCEPT !.level[Ev.i] = IF Ev.pr > @ THEN Ev.pr ELSE @]
     /\ UNCHANGED <<field, told, running, vals, bunch, given, duty>>
  /\ UNCHANGED <<sc, line, st>>

-----------------------------------------------------------------------------
\* results
One(p) == p = <<>>
OrderedExps(s, ord) == [q \in 1..Len(s) |-> <<s[q][1], s[q][2], [v \in 1..sc.n |-> s[q][3][CHOOSE w \in 1..sc.n : ord[w] = v - 1]]>>]
\* a result object: numerator/denominator in internal variable order, times factors in the user's order
Denotes(r) == LET z == RFZ([num |-> OrderedExps(r.num, r.order), den |-> OrderedExps(r.den, r.order)]) IN z
Normalised(r) == (\E q \in 1..Len(r.num) : r.num[q][1] = "1" /\ r.num[q][2] = "1") \/ (\E q \in 1..Len(r.den) : r.den[q][1] = "1" /\ r.den[q][2] = "1")
Canonical(s) == \A q \in 1..Len(s) : CanonQ(s[q][1], s[q][2])
Univ(s, v, n) == [q \in 1..Len(s) |-> <<s[q][1], s[q][2], [w \in 1..n |-> IF w = v + 1 THEN s[q][3][1] ELSE 0]>>]
FacZ(f) == RFZ([num |-> IF f.num = <<>> THEN <<<<"1", "1", [w \in 1..sc.n |-> 0]>>>> ELSE Univ(f.num, f.nv, sc.n),
                den |-> IF f.den = <<>> THEN <<<<"1", "1", [w \in 1..sc.n |-> 0]>>>> ELSE Univ(f.den, f.dv, sc.n)])
RECURSIVE WithFactors(_, _, _)
WithFactors(z, fs, k) == IF k = 0 THEN z ELSE RFMulZ(WithFactors(z, fs, k - 1), FacZ(fs[k]))
Correct(r, f) == LET t == RFZ(f) z == WithFactors(Denotes(r), r.factors, Len(r.factors)) IN
                 IF t.n = {} THEN z.n = {} /\ z.d # {} ELSE RFSame(z, t)

RunBegin == Is("rb") /\ st' = [st EXCEPT !.rec = TRUE] /\ KeepPF /\ UNCHANGED <<sc, line, hist>>
\* the run ends after the scan for factors
StopFac == "stopfac" \in DOMAIN sc
RunEnd == /\ Is("re") /\ ShiftDone
          /\ Req(OnResult, "the reconstruction reports completion", ("limits" \in DOMAIN sc) \/ StopFac \/ Ev.done)
          /\ Req(OnResume, "the run ends when all functions are finished or after the given number of fields",
                 finished \cup Quiet = Items \/ ("limits" \in DOMAIN sc /\ field = MaxField /\ MinHi >= field))
          /\ KeepPF /\ Rest
\* results: those of the finished functions, in their order
RECURSIVE Ordered(_, _)
Ordered(S, i) == IF i >= sc.items THEN <<>> ELSE (IF i \in S THEN <<i>> ELSE <<>>) \o Ordered(S, i + 1)
\* which functions the results belong to
\* (with a factor scan, which functions are finished is not followed: some functions in their order that fit)
Fitting(fs) == LET C == {Q \in SUBSET Items : Cardinality(Q) = Len(fs) /\ LET its == Ordered(Q, 0) IN \A i \in 1..Len(fs) : Correct(fs[i], sc.fns[its[i] + 1])}
               IN Ordered(IF C = {} THEN 0..(Len(fs) - 1) ELSE CHOOSE Q \in C : TRUE, 0)
Owners(m) == IF "limits" \notin DOMAIN sc THEN [i \in 1..sc.items |-> i - 1]
             ELSE LET C == {Q \in SUBSET Quiet : Cardinality(finished \cup Q) = m} IN Ordered(IF C = {} THEN finished ELSE finished \cup (CHOOSE Q \in C : TRUE), 0)
Result ==
  /\ Is("res")
  /\ IF StopFac THEN Req(OnResult, "there are no results after the scan for factors", Ev.fs = <<>>) ELSE
     LET its == IF sc.fscan /\ "limits" \in DOMAIN sc THEN Fitting(Ev.fs) ELSE Owners(Len(Ev.fs))
         bad == {i \in 1..Len(Ev.fs) : i > Len(its) \/ ~Correct(Ev.fs[i], sc.fns[its[i] + 1])}
     IN /\ Req(OnResult, "there is one result for every finished function", Len(Ev.fs) = Len(its))
        /\ Req(OnResult, <<"each result equals the probed function", bad>>, bad = {})
        /\ Req(OnResult, "results are normalised", \A i \in 1..Len(Ev.fs) : Normalised(Ev.fs[i]) /\ Canonical(Ev.fs[i].num) /\ Canonical(Ev.fs[i].den))
  /\ Req(OnFlow, "every delivered probe reaches every function that is still open in the field", AllDutiesDone)
  /\ KeepPF /\ Rest
Finish == Is("end") /\ st' = [st EXCEPT !.over = TRUE] /\ hist' = [hist EXCEPT !.crashed = FALSE] /\ KeepPF /\ UNCHANGED <<sc, line>>

\* operations of the file system are the subject of SaveTrace
Files == (Is("fs") \/ Is("facs")) /\ KeepPF /\ Rest
TraceNext == /\ \/ Files \/ Start \/ Crash \/ Prime \/ Primed \/ Begin \/ End \/ Line \/ Feed \/ IBegin \/ IEnd \/ RunBegin \/ RunEnd \/ Result \/ Finish
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == l
Complete == LET d == TLCGet("stats").diameter IN
  IF d = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>) ELSE PrintT(<<"REJECTED", d, Trace[d].e>>)
=============================================================================
