------------------------------- MODULE Gen_Num -------------------------------
(* Boundary-dense operands of every machine type, and small exact fractions.    *)
EXTENDS Num, TLC, Json
VARIABLES t, a
LowB == {0, 1, 2, 127, 128, 254, 255}
HighB == {0, 1, 64, 127, 128, 129, 255}
Ints(n) == {[i \in 1..n |-> IF i = 1 THEN lo ELSE IF i = n THEN hi ELSE mid] :
              lo \in LowB, hi \in HighB, mid \in {0, 255}}
(* sign, exponent, mantissa pattern *)
F32(s, e, top, low) == <<low, low, (e % 2) * 128 + top, (e \div 2) + s * 128>>
F64(s, e, top, low) == <<low, low, low, low, low, low, (e % 16) * 16 + top, (e \div 16) + s * 128>>
Floats32 == {F32(s, e, m[1], m[2]) : s \in 0..1, e \in {0, 1, 126, 127, 128, 149, 150, 254, 255},
             m \in {<<0, 0>>, <<0, 1>>, <<64, 0>>, <<127, 255>>}}
Floats64 == {F64(s, e, m[1], m[2]) : s \in 0..1, e \in {0, 1, 1022, 1023, 1024, 1074, 1075, 2046, 2047},
             m \in {<<0, 0>>, <<0, 1>>, <<8, 0>>, <<15, 255>>}}
Ops == [i32 |-> Ints(4), i64 |-> Ints(8), u64 |-> Ints(8), f32 |-> Floats32, f64 |-> Floats64]
Init == t \in DOMAIN Ops /\ a \in Ops[t]
Next == UNCHANGED <<t, a>>
Emit == PrintT(ToJson([t |-> t, a |-> a]))
=============================================================================
