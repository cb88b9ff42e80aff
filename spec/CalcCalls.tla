------------------------------ MODULE CalcCalls ------------------------------
(* Recorded calls of the library's stand-alone functions and classes (TRACE), decided by Rational, Linear and PolyAlg. *)
(* c.k: kind, c.op: operation, c.r: result; the arguments have names of their own per kind.                             *)
EXTENDS PolyAlg, Linear, Rational, Bunches, Shift, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Toff(a, p) == LET S == {<<a[i][1], QModP(<<a[i][2], a[i][3]>>, p)>> : i \in 1..Len(a)} IN Norm(S)
QSet(a) == {<<a[i][1], a[i][2], a[i][3]>> : i \in 1..Len(a)}
NonZ(S) == {t \in S : t[2] # "0"}
FFRes(c, A) == Canonical(c.r, c.p) /\ FF(c.r) = A
RECURSIVE SeqVals(_, _, _, _)
\* the polynomial after the first k steps of an evaluation sequence
SeqVals(A, st, k, p) ==
  IF k = 0 THEN A
  ELSE LET B == SeqVals(A, st, k - 1, p) s == st[k] IN
       CASE s.o = "add" -> FFAdd(B, FF(s.b), p)
         [] s.o = "sub" -> FFSub(B, FF(s.b), p)
         [] s.o = "scale" -> FFScale(B, s.c, p)
         [] s.o = "div" -> FFScale(B, BInvM(s.c, p), p)
         [] OTHER -> B
FFOk(c) ==
  LET A == FF(c.a) p == c.p IN
  CASE c.op \in {"add", "addq"} -> FFRes(c, FFAdd(A, FF(c.b), p))
    [] c.op \in {"sub", "subq"} -> FFRes(c, FFSub(A, FF(c.b), p))
    [] c.op = "mul" -> FFRes(c, FFMul(A, FF(c.b), p))
    [] c.op \in {"scale", "scaleq"} -> FFRes(c, FFScale(A, c.c, p))
    [] c.op \in {"div", "divq"} -> FFRes(c, FFScale(A, BInvM(c.c, p), p))
    [] c.op = "mulz" -> FFRes(c, FFMulZ(A, c.z))
    [] c.op = "homog" -> FFRes(c, FFHomog(A, c.z))
    [] c.op = "shift" -> FFRes(c, FFShift(A, c.x, c.n, p))
    [] c.op \in {"calc", "copycalc"} -> c.r = FFEval(A, c.x, p)
    [] c.op = "calcm" -> c.r = FFEvalM(A, c.x, p)
    [] c.op = "calcseq" -> Len(c.r) = Len(c.st) /\ \A k \in 1..Len(c.st) : c.r[k] = FFEvalM(SeqVals(A, c.st, k, p), c.st[k].x, p)
    [] c.op = "clean" -> FFRes(c, A) /\ \A k \in 1..Len(c.r) : c.r[k][2] # "0"
    [] c.op = "zero" -> c.r = Bool(A = {})
    [] c.op = "maxdeg" -> c.r[1] \in MaxDegs(A) /\ c.r[2] \in MinDegs(A)
    [] c.op = "maxdegq" -> LET B == IF c.o = "add" THEN FFAdd(A, FF(c.b), p) ELSE FFSub(A, FF(c.b), p) IN c.r[1] \in MaxDegs(B) /\ c.r[2] \in MinDegs(B)
RnOk(c) ==
  LET a == QNew(c.a[1], c.a[2]) IN
  IF c.op = "new" THEN c.r = <<a>>
  ELSE IF c.op = "neg" THEN c.r = <<QNeg(a), a>>
  ELSE LET b == QNew(c.b[1], c.b[2])
           v == CASE c.op \in {"mul", "mulq"} -> QMul(a, b)
                  [] c.op = "addq" -> QAdd(a, b)
                  [] c.op = "subq" -> QSub(a, b)
                  [] c.op = "gcd" -> QGcd(a, b)
                  [] c.op = "addself" -> QAdd(a, a)
                  [] c.op = "subself" -> <<"0", "1">>
                  [] c.op = "mulself" -> QMul(a, a)
                  [] OTHER -> <<>>
       IN IF c.op = "eq" THEN c.r = Bool(a = b) ELSE c.r = <<v, a, b>>
MonOk(c) ==
  LET T(k) == <<c.a[k][1], QNew(c.a[k][2], c.a[k][3])>>
      R(k) == <<c.r[k][1], <<c.r[k][2], c.r[k][3]>>>>
      less(x, y) == Deg(x) < Deg(y) \/ (Deg(x) = Deg(y) /\ \E i \in 1..Len(x) : x[i] > y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j])
  IN CASE c.op = "mul" -> R(1) = <<ESum(c.a[1][1], c.a[2][1]), QMul(T(1)[2], T(2)[2])>> /\ R(2) = T(1) /\ R(3) = T(2)
       [] c.op = "neg" -> R(1) = <<c.a[1][1], QNeg(T(1)[2])>> /\ R(2) = T(1)
       [] c.op = "cmp" -> c.r = Bool(less(c.a[1][1], c.a[2][1])) \o Bool(less(c.a[2][1], c.a[1][1]))
PolOk(c) ==
  CASE c.op = "toff" -> Canonical(c.r, c.p) /\ FF(c.r) = Toff(c.a, c.p)
    [] c.op = "scale" -> NonZ(QSet(c.r)) = NonZ({LET q == QMul(QNew(c.a[i][2], c.a[i][3]), QNew(c.b[1], c.b[2])) IN <<c.a[i][1], q[1], q[2]>> : i \in 1..Len(c.a)})
    [] c.op = "sort" -> QSet(c.r) = {LET q == QNew(c.a[i][2], c.a[i][3]) IN <<c.a[i][1], q[1], q[2]>> : i \in 1..Len(c.a)} /\ Len(c.r) = Len(c.a)
    [] c.op = "zero" -> c.r = Bool(\A i \in 1..Len(c.a) : c.a[i][2] = "0")
    [] c.op = "clear" -> c.r = <<>>
UpOk(c) ==
  LET p == c.p IN
  CASE c.op = "deg" -> c.r = UDeg(c.a)
    [] c.op = "scale" -> USame(c.r, UScale(c.a, c.c, p))
    [] c.op = "divs" -> USame(c.r, UScale(c.a, BInvM(c.c, p), p))
    [] c.op = "rev" -> USame(c.r, URev(c.a))
    [] c.op = "roots" -> USame(FromRoots(c.r, Len(c.r), p), UMonic(c.a, p))
    [] c.op = "add" -> USame(c.r, UAdd(c.a, c.b, p))
    [] c.op = "sub" -> USame(c.r, USub(c.a, c.b, p))
    [] c.op = "mul" -> USame(c.r, UMul(c.a, c.b, p))
    [] c.op = "divmod" -> DivModOk(c.a, c.b, c.r[1], c.r[2], p)
    [] c.op = "gcd" -> USame(UMonic(c.r, p), UMonic(UGcd(c.a, c.b, p), p))
\* the list of all candidates; the other list leaves out the full one
ShiftOk(c) == LET s == [k \in 1..Len(c.r) |-> Ones(c.r[k])] IN
  /\ \A k \in 1..Len(c.r) : Len(c.r[k]) = c.n /\ \A q \in 1..c.n : c.r[k][q] \in {0, 1}
  /\ Len(s) = (IF c.op = "perm" THEN 2^c.n ELSE 2^c.n - 1)
  /\ Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
  /\ \A k \in 2..Len(s) : Cardinality(s[k - 1]) <= Cardinality(s[k])
  /\ (c.op = "poss" => 1..c.n \notin {s[k] : k \in 1..Len(s)})
Ok(c) ==
  CASE c.k = "crt" -> CrtOk(c.x1, c.m1, c.x2, c.m2, c.r)
    [] c.k = "rec" -> ReconstructOk(c.op, c.x, c.m, c.w, c.r)
    [] c.k = "small" -> SmallOk(c.op, c.x, c.m, c.r)
    [] c.k = "lin" -> (c.op = "ludet" \/ Regular(c.A, c.p)) => SolverOk(c.op, c.A, c.b, c.p, c.r)
    [] c.k = "vdm" -> VandermondeRegular(c.degs, c.val, c.p) => VandermondeOk(c.degs, c.nums, c.val, c.p, Terms(c.r))
    [] c.k = "ff" -> FFOk(c)
    [] c.k = "rn" -> RnOk(c)
    [] c.k = "mon" -> MonOk(c)
    [] c.k = "pol" -> PolOk(c)
    [] c.k = "up" -> UpOk(c)
    [] c.k = "shifts" -> ShiftOk(c)
    [] c.k = "bun" -> PartitionOk(c.q, c.thr, c.max, c.r[1]) /\ JobsOk(c.q, c.free, c.r[1], c.r[2])
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"BAD", l, Trace[l].op>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Complete == TLCGet("stats").diameter = Len(Trace) + 1 /\ PrintT(<<"ACCEPTED", Len(Trace)>>)
=============================================================================
