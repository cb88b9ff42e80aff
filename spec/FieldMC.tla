------------------------------- MODULE FieldMC -------------------------------
(* The operations of Field form a field: all axioms for all elements of small prime fields.                       *)
EXTENDS Field
VARIABLES p, x, y, z
E(m) == {BOfInt(k) : k \in 0..(BToInt(m) - 1)}
Init == p \in {"2", "3", "5", "7", "11", "13"} /\ x \in E(p) /\ y \in E(p) /\ z \in E(p)
Next == UNCHANGED <<p, x, y, z>>
Spec == Init /\ [][Next]_<<p, x, y, z>>
Axioms ==
  /\ FAdd(x, y, p) = FAdd(y, x, p) /\ FMul(x, y, p) = FMul(y, x, p)
  /\ FAdd(x, FAdd(y, z, p), p) = FAdd(FAdd(x, y, p), z, p)
  /\ FMul(x, FMul(y, z, p), p) = FMul(FMul(x, y, p), z, p)
  /\ FMul(x, FAdd(y, z, p), p) = FAdd(FMul(x, y, p), FMul(x, z, p), p)
  /\ FSub(x, y, p) = FAdd(x, FNeg(y, p), p) /\ FAdd(x, FNeg(x, p), p) = "0"
  /\ FMul(x, FInv(x, p), p) = (IF x = "0" THEN "0" ELSE "1")
  /\ FMul(FDiv(x, y, p), y, p) = (IF y = "0" THEN "0" ELSE x)
  /\ FPow(x, FAdd(y, "0", p), p) \in E(p)
  /\ x # "0" => FMul(FPow(x, y, p), FPow(x, BNeg(y), p), p) = "1"
  /\ x # "0" => FPow(x, BSub(p, "1"), p) = "1"
  /\ FPow(x, "0", p) = "1" /\ FPow(x, "1", p) = x /\ FPow(x, "-1", p) = FInv(x, p)
=============================================================================
