------------------------------ MODULE BigNat ------------------------------
(* Natural numbers as little-endian sequences of base-256 digits without    *)
(* trailing zeros: TLC's integers have 32 bits, the code's have 64.         *)
EXTENDS Integers, Sequences
RECURSIVE BNorm(_)
BNorm(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN BNorm(SubSeq(s, 1, Len(s) - 1)) ELSE s \o <<>>  \* (a tuple, evaluated)
BD(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
BZero == <<>>
BMax2(a, b) == IF a > b THEN a ELSE b
RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BOf(n \div 256)
\* smaller than 2^24, or 2^24
BInt(s) == IF Len(s) > 3 THEN 16777216 ELSE BD(s, 1) + 256 * BD(s, 2) + 65536 * BD(s, 3)
RECURSIVE BAddR(_, _, _, _, _)
BAddR(a, b, i, c, acc) ==
  IF i > BMax2(Len(a), Len(b)) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == BD(a, i) + BD(b, i) + c IN BAddR(a, b, i + 1, s \div 256, Append(acc, s % 256))
BAdd(a, b) == BAddR(a, b, 1, 0, <<>>)
RECURSIVE BSubR(_, _, _, _, _)
BSubR(a, b, i, c, acc) ==
  IF i > Len(a) THEN BNorm(acc)
  ELSE LET s == a[i] - BD(b, i) - c IN BSubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, IF s < 0 THEN s + 256 ELSE s))
BSub(a, b) == BSubR(a, b, 1, 0, <<>>)                 \* a >= b
RECURSIVE BLtR(_, _, _)
BLtR(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLtR(a, b, i - 1)
BLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLtR(a, b, Len(a))
BLe(a, b) == ~BLt(b, a)
RECURSIVE BConv(_, _, _, _, _)
BConv(a, b, k, i, s) == IF i > Len(a) THEN s ELSE BConv(a, b, k, i + 1, s + a[i] * BD(b, k + 1 - i))
RECURSIVE BMulR(_, _, _, _, _)
BMulR(a, b, k, c, acc) ==
  IF k > Len(a) + Len(b) THEN BNorm(acc)
  ELSE LET s == BConv(a, b, k, 1, c) IN BMulR(a, b, k + 1, s \div 256, Append(acc, s % 256))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BMulR(a, b, 1, 0, <<>>)
BPow2(k) == [i \in 1..(k \div 8 + 1) |-> IF i = k \div 8 + 1 THEN 2^(k % 8) ELSE 0]
BBit(s, k) == (BD(s, k \div 8 + 1) \div 2^(k % 8)) % 2
BFromBits(f, n) ==   \* f: 0..n-1 -> {0,1}
  BNorm([i \in 1..((n + 7) \div 8) |-> LET g(j) == IF 8 * (i - 1) + j < n THEN f[8 * (i - 1) + j] * 2^j ELSE 0
                                       IN g(0) + g(1) + g(2) + g(3) + g(4) + g(5) + g(6) + g(7)])
BShl(s, k) == IF s = <<>> THEN s ELSE BMul(s, BPow2(k))
BShr(s, k) ==
  LET d == k \div 8
      m == k % 8
  IN IF d >= Len(s) THEN <<>>
     ELSE BNorm([i \in 1..(Len(s) - d) |-> (s[i + d] \div 2^m) + (BD(s, i + d + 1) % 2^m) * 2^(8 - m)])
BLow(s, w) ==                                          \* s modulo 2^w
  LET n == w \div 8
      m == w % 8
  IN BNorm([i \in 1..(IF m = 0 THEN n ELSE n + 1) |-> IF i <= n THEN BD(s, i) ELSE BD(s, i) % 2^m])
BLen(s) == IF s = <<>> THEN 0
           ELSE LET d == s[Len(s)] IN 8 * (Len(s) - 1) + (CHOOSE k \in 1..8 : 2^(k - 1) <= d /\ d < 2^k)
\* long division, most significant bit first
RECURSIVE BDivR(_, _, _, _, _)
BDivR(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET r2 == LET x == BAdd(r, r) IN IF BBit(a, k) = 1 THEN BAdd(x, <<1>>) ELSE x
           ge == ~BLt(r2, b)
           q2 == LET x == BAdd(q, q) IN IF ge THEN BAdd(x, <<1>>) ELSE x
       IN BDivR(a, b, k - 1, q2, IF ge THEN BSub(r2, b) ELSE r2)
BDivMod(a, b) == IF BLt(a, b) THEN <<<<>>, a>> ELSE BDivR(a, b, BLen(a) - 1, <<>>, <<>>)
\* division by a number smaller than 2^15, digit by digit
RECURSIVE BDivSR(_, _, _, _, _)
BDivSR(a, d, i, r, q) == IF i = 0 THEN <<BNorm(q), r>>
                         ELSE LET x == r * 256 + a[i] IN BDivSR(a, d, i - 1, x % d, <<x \div d>> \o q)
BDivS(a, d) == BDivSR(a, d, Len(a), 0, <<>>)
DigitStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE BDecR(_)
BDecR(s) == IF s = <<>> THEN "" ELSE LET x == BDivS(s, 10) IN BDecR(x[1]) \o DigitStr[x[2] + 1]
BDec(s) == IF s = <<>> THEN "0" ELSE BDecR(s)
=============================================================================
