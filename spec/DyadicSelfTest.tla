--------------------------- MODULE DyadicSelfTest ---------------------------
(* Compares the overridden operators with their TLA+ definitions.          *)
EXTENDS Dyadic, TLC
PAdd(a, b) == IF DIsNaN(a) \/ DIsNaN(b) THEN DNaN
              ELSE IF DIsFin(a) /\ DIsFin(b) THEN FinAdd(a, b)
              ELSE IF DIsFin(a) THEN b ELSE IF DIsFin(b) THEN a
              ELSE IF a = b THEN a ELSE DNaN
PMul(a, b) == IF DIsNaN(a) \/ DIsNaN(b) THEN DNaN
              ELSE IF DIsFin(a) /\ DIsFin(b) THEN FinMul(a, b)
              ELSE LET s == DSgn(a) * DSgn(b)
                   IN IF s = 0 THEN DNaN ELSE IF s > 0 THEN DPInf ELSE DNInf
PCmp(a, b) == IF DIsNaN(a) \/ DIsNaN(b) THEN 2
              ELSE IF DIsFin(a) /\ DIsFin(b) THEN LET d == FinAdd(a, DNeg(b)) IN d[1]
              ELSE IF a = b THEN 0 ELSE IF a[1] = 8 \/ b[1] = 9 THEN 1 ELSE -1
Ms == {<<1>>, <<32767>>, <<1, 1>>, <<32767, 32767>>, <<5, 0, 7>>, <<16384, 3, 9, 21>>, <<32767, 32767, 32767, 32767, 15>>}
Ds == {DZero, DNaN, DPInf, DNInf} \cup {<<s, e>> \o m : s \in {-1, 1}, e \in {-3, -1, 0, 2}, m \in Ms}
VARIABLES a, b
Init == a \in Ds /\ b \in Ds
Next == UNCHANGED <<a, b>>
Same == /\ DAdd(a, b) = PAdd(a, b)
        /\ DMul(a, b) = PMul(a, b)
        /\ DCmp(a, b) = PCmp(a, b)
        /\ DDot(<<a, b>>, <<b, b>>) = PAdd(PMul(a, b), PMul(b, b))
        /\ DSumSq(<<a, b>>) = PAdd(PMul(a, a), PMul(b, b))
=============================================================================
