------------------------------ MODULE Printed ------------------------------
(* What a result object denotes, and that a printed form denotes the same: the text belongs to the expression language *)
(* of Expr and has the value of the object wherever the object is defined.  A polynomial is a sequence of               *)
(* <<exponents, numerator, denominator>> (denominator "1" over a prime field).  A rational function has a numerator and *)
(* a denominator whose i-th power belongs to variable ord[i], and factors in one variable each; an absent denominator   *)
(* or factor is 1, an empty numerator is 0.                                                                              *)
EXTENDS Expr, PolyZ
QVal(n, d, p) == BMulM(n, BInvM(d, p), p)
PolyVal(a, x, p) == PEvalM({<<a[i][1], QVal(a[i][2], a[i][3], p)>> : i \in 1..Len(a)}, x, p)
OrOne(a, x, p) == IF a = <<>> THEN BMod("1", p) ELSE PolyVal(a, x, p)
RECURSIVE Facs(_, _, _, _, _)
Facs(fs, which, x, k, p) ==
  IF k = 0 THEN BMod("1", p)
  ELSE FMul(Facs(fs, which, x, k - 1, p), OrOne(IF which = "n" THEN fs[k].n ELSE fs[k].d, <<x[fs[k].v + 1]>>, p), p)
Reordered(x, ord) == [i \in 1..Len(x) |-> IF ord = <<>> THEN x[i] ELSE x[ord[i] + 1]]
\* value of o at x, "undef" where its denominator vanishes
RFVal(o, x, p) ==
  LET y == Reordered(x, o.ord)
      n == FMul(PolyVal(o.n, y, p), Facs(o.f, "n", x, Len(o.f), p), p)
      d == FMul(OrOne(o.d, y, p), Facs(o.f, "d", x, Len(o.f), p), p)
  IN IF d = "0" THEN "undef" ELSE FDiv(n, d, p)
ObjVal(c, x) ==
  CASE c.op \in {"rf", "rfh", "rff"} -> RFVal(c.o, x, c.p)
    [] c.op \in {"poly", "polyh", "hrn", "hmon", "hff", "ff"} -> PolyVal(c.o, x, c.p)
    [] c.op \in {"rn", "rnout"} -> QVal(c.o[1], c.o[2], c.p)
PrintedOk(c) ==
  \A k \in 1..Len(c.pts) :
    LET v == ObjVal(c, c.pts[k]) e == EvalExpr(c.r.s, c.vars, c.pts[k], c.p)
    IN /\ e # "malformed"
       /\ (v = "undef") = (e = "undef")
       /\ v # "undef" => e = v /\ ("v" \in DOMAIN c.r => c.r.v[k] = v)
=============================================================================
