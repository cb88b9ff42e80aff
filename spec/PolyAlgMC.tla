------------------------------ MODULE PolyAlgMC ------------------------------
(* Laws tying the operations of PolyAlg to evaluation, for all small polynomials over the field with three elements. *)
EXTENDS PolyAlg, TLC
p == "3"
C == {"0", "1", "2"}
Mk(f) == Norm({<<e, f[e]>> : e \in DOMAIN f})
E2 == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>}
P2 == {Mk(f) : f \in [{<<0, 0>>, <<1, 0>>, <<1, 1>>} -> C]}
Pts == C \X C
VARIABLES A, B, u, v
Uni == [1..3 -> C]
Zero == <<"0", "0", "0">>
Init == \/ A \in P2 /\ B \in P2 /\ u = Zero /\ v = Zero
        \/ A = {} /\ B = {} /\ u \in Uni /\ v \in Uni
Next == UNCHANGED <<A, B, u, v>>
Spec == Init /\ [][Next]_<<A, B, u, v>>
Ring == \A x \in Pts :
  /\ FFEval(FFAdd(A, B, p), x, p) = BAddM(FFEval(A, x, p), FFEval(B, x, p), p)
  /\ FFEval(FFSub(A, B, p), x, p) = BSubM(FFEval(A, x, p), FFEval(B, x, p), p)
  /\ FFEval(FFMul(A, B, p), x, p) = BMulM(FFEval(A, x, p), FFEval(B, x, p), p)
  /\ FFEval(FFHomog(A, 2), <<"1">> \o x, p) = FFEval(A, x, p)
Shifted == B = {} => \A x, s \in Pts : FFEval(FFShift(A, s, 2, p), x, p) = FFEval(A, <<BAddM(x[1], s[1], p), BAddM(x[2], s[2], p)>>, p)
Division == ~UZero(v) =>
  LET r == URem(u, v, p) IN
  /\ UZero(r) \/ UDeg(r) < UDeg(v)
  /\ \E q \in Uni : DivModOk(u, v, q, r, p)
  /\ LET g == UGcd(u, v, p) IN UZero(URem(u, g, p)) /\ UZero(URem(v, g, p)) /\ \A d \in Uni : (~UZero(d) /\ UZero(URem(u, d, p)) /\ UZero(URem(v, d, p))) => UZero(URem(g, d, p))
Multiplies == \A x \in C : UEval(UMul(u, v, p), x, p) = BMulM(UEval(u, x, p), UEval(v, x, p), p)
=============================================================================
