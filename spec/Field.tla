-------------------------------- MODULE Field --------------------------------
(* The prime field with p elements as the library presents it: canonical representatives 0..p-1 (decimal strings), *)
(* division by zero is zero, 0^0 = 1, integer exponents of any sign, and field elements as exponents taken as       *)
(* their representative.  Vectors act lane by lane.                                                                  *)
EXTENDS BigNum, FiniteSets

FNew(x, p) == BMod(x, p)
FAdd(x, y, p) == BAddM(x, y, p)
FSub(x, y, p) == BSubM(x, y, p)
FMul(x, y, p) == BMulM(x, y, p)
FInv(x, p) == BInvM(x, p)                      \* "0" for x = 0
FDiv(x, y, p) == FMul(x, FInv(y, p), p)
FNeg(x, p) == BSubM("0", x, p)
FPow(x, e, p) == IF BLt(e, "0") THEN BPowM(FInv(x, p), BNeg(e), p) ELSE BPowM(x, e, p)
Bool(b) == IF b THEN "1" ELSE "0"

\* meaning of the operations on numbers; a: arguments
Scalar(op, p, a) ==
  CASE op \in {"i8", "i16", "i32", "i64", "u32", "u64", "mpz", "str"} -> FNew(a[1], p)
    [] op \in {"copy", "out", "plus"} -> a[1]
    [] op = "zero" -> "0"
    [] op = "neg" -> FNeg(a[1], p)
    [] op = "not" -> Bool(a[1] = "0")
    [] op \in {"add", "addq"} -> FAdd(a[1], a[2], p)
    [] op \in {"sub", "subq"} -> FSub(a[1], a[2], p)
    [] op \in {"mul", "mulq"} -> FMul(a[1], a[2], p)
    [] op \in {"div", "divq"} -> FDiv(a[1], a[2], p)
    [] op = "addself" -> FAdd(a[1], a[1], p)
    [] op = "subself" -> "0"
    [] op = "mulself" -> FMul(a[1], a[1], p)
    [] op = "divself" -> IF a[1] = "0" THEN "0" ELSE "1"
    [] op \in {"powf", "powi32", "powi64", "powu32", "powu64"} -> FPow(a[1], a[2], p)
    [] op = "eq" -> Bool(a[1] = a[2])
    [] op = "ne" -> Bool(a[1] # a[2])
    [] op = "lt" -> Bool(BLt(a[1], a[2]))
    [] op = "le" -> Bool(BLe(a[1], a[2]))
    [] op = "gt" -> Bool(BLt(a[2], a[1]))
    [] op = "ge" -> Bool(BLe(a[2], a[1]))

\* operations on vectors of n numbers; a: the lanes of the first operand, then of the second (or an exponent)
LaneOp == {"add", "addq", "sub", "subq", "mul", "mulq", "div", "divq", "powf"}
SelfOp == {"neg", "plus", "addself", "subself", "mulself", "divself"}
\* one operand is a single number (b = a[n + 1], possibly given as an integer), on the right or on the left
RightOp == [addvs |-> "add", subvs |-> "sub", mulvs |-> "mul", divvs |-> "div", addvi |-> "add", subvi |-> "sub", mulvi |-> "mul", divvi |-> "div",
            addqs |-> "add", subqs |-> "sub", mulqs |-> "mul", divqs |-> "div"]
LeftOp == [addsv |-> "add", subsv |-> "sub", mulsv |-> "mul", divsv |-> "div", addiv |-> "add", subiv |-> "sub", muliv |-> "mul", diviv |-> "div"]
Vector(op, n, p, a) ==
  CASE op \in LaneOp -> [i \in 1..n |-> Scalar(op, p, <<a[i], a[n + i]>>)]
    [] op \in DOMAIN RightOp -> [i \in 1..n |-> Scalar(RightOp[op], p, <<a[i], FNew(a[n + 1], p)>>)]
    [] op \in DOMAIN LeftOp -> [i \in 1..n |-> Scalar(LeftOp[op], p, <<FNew(a[n + 1], p), a[i]>>)]
    [] op \in {"lt", "le", "gt", "ge"} -> Scalar(op, p, <<a[1], a[n + 1]>>)   \* ordering (all lanes equal)
    [] op \in SelfOp -> [i \in 1..n |-> Scalar(op, p, <<a[i]>>)]
    [] op \in {"id", "copy", "iter", "index", "at", "set"} -> [i \in 1..n |-> a[i]]
    [] op = "fill" -> [i \in 1..n |-> a[1]]
    [] op = "zero" -> [i \in 1..n |-> "0"]
    [] op = "powfs" -> [i \in 1..n |-> FPow(a[i], a[n + 1], p)]
    [] op \in {"powi", "powi2"} -> [i \in 1..n |-> FPow(a[i], a[Len(a)], p)]
    [] op = "powv" -> [i \in 1..n |-> FPow(a[i], a[n + i], p)]
    [] op = "eq" -> Bool(\A i \in 1..n : a[i] = a[n + i])
    [] op = "ne" -> Bool(\E i \in 1..n : a[i] # a[n + i])
    [] op = "not" -> Bool(\E i \in 1..n : a[i] = "0")   \* a vector is "zero" if it cannot be inverted
=============================================================================
