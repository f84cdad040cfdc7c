------------------------------- MODULE MC_Num --------------------------------
(* The byte arithmetic of Num against TLA+ integers, on all 1-byte and a grid   *)
(* of 2-byte numbers: wrap-around, order, floor division.                       *)
EXTENDS Num
VARIABLES a, b, w
Val(x, signed) ==
  LET u == IF Len(x) = 1 THEN x[1] ELSE x[1] + 256 * x[2]
      m == 256 ^ Len(x)
  IN IF signed /\ u >= m \div 2 THEN u - m ELSE u
Enc(v, n) == IF n = 1 THEN <<v % 256>> ELSE <<v % 256, (v \div 256) % 256>>
Grid == {0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 32767, 32768, 32769, 65534, 65535}
Init == \/ w = 1 /\ a \in 0..255 /\ b \in {0, 1, 2, 3, 7, 127, 128, 129, 253, 254, 255}
        \/ w = 2 /\ a \in Grid /\ b \in Grid
Next == UNCHANGED <<a, b, w>>
FDiv(p, q) == IF q > 0 THEN p \div q ELSE (-p) \div (-q)
Laws ==
  LET x == Enc(a, w)
      y == Enc(b, w)
      n == 256 ^ w
  IN /\ Add(x, y) = Enc((a + b) % n, w)
     /\ Sub(x, y) = Enc((a - b + n) % n, w)
     /\ Mul(x, y) = Enc(((a % n) * (b % 256)) % n, w) \/ b >= 256
     /\ Neg(x) = Enc((n - a) % n, w)
     /\ \A s \in BOOLEAN :
          LET p == Val(x, s)
              q == Val(y, s)
          IN /\ ICmp(x, y, s) = (IF p < q THEN -1 ELSE IF p = q THEN 0 ELSE 1)
             /\ q # 0 => LET d == FDiv(p, q)
                             m == p - d * q
                         IN \* exactly the mathematical quotient and remainder fit
                            /\ FloorDivMod(x, y, Enc(d % n, w), Enc(m % n, w), s)
                            /\ ~FloorDivMod(x, y, Enc((d + 1) % n, w), Enc((m - q) % n, w), s)
                            /\ ~FloorDivMod(x, y, Enc((d - 1) % n, w), Enc((m + q) % n, w), s)
                            /\ ~FloorDivMod(x, y, Enc(d % n, w), Enc((m + 1) % n, w), s)
=============================================================================
