----------------------------- MODULE InterpTrace -----------------------------
(* Recorded dialogues with the real interpolators (TRACE); each starts with event "thiele" or "poly".                    *)
EXTENDS Interp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h, p, anch, k, pts
V == <<l, h, p, anch, k, pts>>
Init == l = 1 /\ h = [e |-> "none"] /\ p = "2" /\ anch = <<>> /\ k = 0 /\ pts = 0
E == Trace[l]
Report(ok, why) == IF ok THEN TRUE ELSE PrintT(<<"BAD", l, why>>)
Thiele == E.e = "thiele" /\ h' = E /\ p' = E.p /\ anch' = <<>> /\ k' = 0 /\ pts' = 0
Point == /\ E.e = "point" /\ pts' = pts + 1 /\ UNCHANGED <<h, p, anch, k>>
         /\ Report(BMulM(E.y, ValMod(h.den, <<E.x>>, p), p) = ValMod(h.num, <<E.x>>, p), "value")
         /\ Report(E.done = (pts + 1 = ThielePoints(UniDeg(h.num), UniDeg(h.den))), <<"completion after", ThielePoints(UniDeg(h.num), UniDeg(h.den)), "points">>)
TRes == /\ E.e = "tres" /\ UNCHANGED <<h, p, anch, k, pts>>
        /\ Report(SameFn(FFSet(E.num), FFSet(E.den), h.num, h.den, p), "function")
Poly == /\ E.e = "poly" /\ h' = E /\ p' = E.p /\ anch' = E.anchors /\ k' = 0 /\ pts' = 0
        /\ Report(E.p = Primes[1], "prime")
Prime == /\ E.e = "prime" /\ p' = E.p /\ anch' = E.anchors /\ k' = k + 1 /\ UNCHANGED <<h, pts>>
         /\ Report(E.k = k + 1 /\ E.p = Primes[k + 2], "order of the primes")
Feed == /\ E.e = "feed" /\ pts' = pts + 1 /\ UNCHANGED <<h, p, anch, k>>
        /\ Report(E.x = [i \in 1..h.n |-> BPowM(anch[i], BOfInt(E.o[i]), p)], "requested point")
        /\ Report(E.y = ValMod(h.poly, E.x, p), "value")
PRes == /\ E.e = "pres" /\ UNCHANGED <<h, p, anch, k, pts>>
        /\ Report(Canon(E.res) /\ QSame(E.res, h.poly), "polynomial")
Emb == /\ E.e = "emb" /\ UNCHANGED <<h, p, anch, k, pts>>
       /\ Report(FFSet(E.res) = Hom(QTermsMod(h.poly, p), h.deg), "polynomial over the field")
GiveUp == E.e = "giveup" /\ UNCHANGED <<h, p, anch, k, pts>> /\ Report(FALSE, "no completion")
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Thiele \/ Point \/ TRes \/ Poly \/ Prime \/ Feed \/ PRes \/ Emb \/ GiveUp)
Spec == Init /\ [][Next]_V
Complete == TLCGet("stats").diameter = Len(Trace) + 1 /\ PrintT(<<"ACCEPTED", Len(Trace)>>)
=============================================================================
