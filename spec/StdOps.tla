------------------------------ MODULE StdOps ------------------------------
(* What the operations of the standard extensions mean                       *)
(* (specification/hugr.md, "Standard Library").                               *)
(* Values: <<"i", logwidth, n>> integers, <<"z", n>> usize, <<"f", bits>>     *)
(* float64, <<"s", tag, vals>> sums (tuples and bools included), <<"q", str>> *)
(* strings, <<"e">> errors, <<"l", vals>> lists.                              *)
EXTENDS BigNat, TLC
Def(vs) == [k |-> "def", v |-> vs]         \* the outputs
Undef == [k |-> "undef"]                   \* the operation panics
AnyOf == [k |-> "any"]                     \* implementation-defined: not judged
Bool(b) == <<"s", IF b THEN 1 ELSE 0, <<>>>>
True == Bool(TRUE)
Tup(vs) == <<"s", 0, vs>>
Err == <<"s", 0, <<<<"e">>>>>>
Ok(v) == <<"s", 1, <<v>>>>
W(lw) == 2^lw
I(lw, n) == <<"i", lw, n>>
Mod2(n, lw) == BLow(n, W(lw))
Pow(lw) == BPow2(W(lw))
Neg(n, lw) == IF n = BZero THEN BZero ELSE BSub(Pow(lw), n)
Minus(n, lw) == BBit(n, W(lw) - 1) = 1               \* negative as a signed integer
Mag(n, lw) == IF Minus(n, lw) THEN Neg(n, lw) ELSE n
SLt(a, b, lw) == IF Minus(a, lw) # Minus(b, lw) THEN Minus(a, lw) ELSE BLt(a, b)
Bits(n, w) == [i \in 0..(w - 1) |-> BBit(n, i)]
BitOp(f(_, _), a, b, w) == LET x == Bits(a, w) y == Bits(b, w) IN BFromBits([i \in 0..(w - 1) |-> f(x[i], y[i])], w)
BAnd(x, y) == x * y
BOr(x, y) == IF x + y > 0 THEN 1 ELSE 0
BXor(x, y) == (x + y) % 2
\* n signed, m unsigned and not zero: q signed with q*m + r = n, 0 <= r < m
DivS(n, m, lw) ==
  LET d == BDivMod(Mag(n, lw), m)
  IN IF ~Minus(n, lw) THEN d
     ELSE IF d[2] = BZero THEN <<Mod2(Neg(d[1], lw), lw), BZero>>
     ELSE <<Neg(BAdd(d[1], <<1>>), lw), BSub(m, d[2])>>
RECURSIVE PowMod(_, _, _, _)
PowMod(b, e, lw, k) ==      \* b^(e's top bits down to bit k), square and multiply
  IF k >= BLen(e) THEN BLow(<<1>>, W(lw))
  ELSE LET h == PowMod(b, e, lw, k + 1)
           sq == Mod2(BMul(h, h), lw)
       IN IF BBit(e, k) = 1 THEN Mod2(BMul(sq, b), lw) ELSE sq
Rot(n, k, w) == BFromBits([i \in 0..(w - 1) |-> BBit(n, (i + w - k) % w)], w)     \* left by k < w
ModW(k, w) == BInt(BLow(k, CHOOSE j \in 0..6 : 2^j = w))
IntOp(op, ws, a) ==
  LET lw == a[1][2]
      w == W(lw)
      x == a[1][3]
      y == a[2][3]
      lw2 == ws[2]
      R(n) == Def(<<I(lw, n)>>)
      B(b) == Def(<<Bool(b)>>)
      du == BDivMod(x, y)
      ds == DivS(x, y, lw)
      z == y = BZero
  IN CASE op = "iwiden_u" -> Def(<<I(lw2, x)>>)
       [] op = "iwiden_s" -> Def(<<I(lw2, IF Minus(x, lw) THEN BSub(Pow(lw2), Mag(x, lw)) ELSE x)>>)
       [] op = "inarrow_u" -> Def(<<IF BLen(x) <= W(lw2) THEN Ok(I(lw2, x)) ELSE Err>>)
       [] op = "inarrow_s" -> Def(<<LET m == Mag(x, lw)
                                        fits == IF Minus(x, lw) THEN BLe(m, BPow2(W(lw2) - 1)) ELSE BLt(m, BPow2(W(lw2) - 1))
                                    IN IF fits THEN Ok(I(lw2, Mod2(x, lw2))) ELSE Err>>)
       [] op = "ieq" -> B(x = y)
       [] op = "ine" -> B(x # y)
       [] op = "ilt_u" -> B(BLt(x, y))
       [] op = "ilt_s" -> B(SLt(x, y, lw))
       [] op = "igt_u" -> B(BLt(y, x))
       [] op = "igt_s" -> B(SLt(y, x, lw))
       [] op = "ile_u" -> B(~BLt(y, x))
       [] op = "ile_s" -> B(~SLt(y, x, lw))
       [] op = "ige_u" -> B(~BLt(x, y))
       [] op = "ige_s" -> B(~SLt(x, y, lw))
       [] op = "imax_u" -> R(IF BLt(x, y) THEN y ELSE x)
       [] op = "imax_s" -> R(IF SLt(x, y, lw) THEN y ELSE x)
       [] op = "imin_u" -> R(IF BLt(x, y) THEN x ELSE y)
       [] op = "imin_s" -> R(IF SLt(x, y, lw) THEN x ELSE y)
       [] op = "iadd" -> R(Mod2(BAdd(x, y), lw))
       [] op = "isub" -> R(Mod2(BAdd(x, Neg(y, lw)), lw))
       [] op = "ineg" -> R(Neg(x, lw))
       [] op = "imul" -> R(Mod2(BMul(x, y), lw))
       [] op = "ipow" -> R(PowMod(x, y, lw, 0))
       [] op = "idivmod_checked_u" -> Def(<<IF z THEN Err ELSE Ok(Tup(<<I(lw, du[1]), I(lw, du[2])>>))>>)
       [] op = "idivmod_u" -> IF z THEN Undef ELSE Def(<<I(lw, du[1]), I(lw, du[2])>>)
       [] op = "idivmod_checked_s" -> Def(<<IF z THEN Err ELSE Ok(Tup(<<I(lw, ds[1]), I(lw, ds[2])>>))>>)
       [] op = "idivmod_s" -> IF z THEN Undef ELSE Def(<<I(lw, ds[1]), I(lw, ds[2])>>)
       [] op = "idiv_checked_u" -> Def(<<IF z THEN Err ELSE Ok(I(lw, du[1]))>>)
       [] op = "idiv_u" -> IF z THEN Undef ELSE R(du[1])
       [] op = "imod_checked_u" -> Def(<<IF z THEN Err ELSE Ok(I(lw, du[2]))>>)
       [] op = "imod_u" -> IF z THEN Undef ELSE R(du[2])
       [] op = "idiv_checked_s" -> Def(<<IF z THEN Err ELSE Ok(I(lw, ds[1]))>>)
       [] op = "idiv_s" -> IF z THEN Undef ELSE R(ds[1])
       [] op = "imod_checked_s" -> Def(<<IF z THEN Err ELSE Ok(I(lw, ds[2]))>>)
       [] op = "imod_s" -> IF z THEN Undef ELSE R(ds[2])
       [] op = "iabs" -> R(Mag(x, lw))
       [] op = "iand" -> R(BitOp(BAnd, x, y, w))
       [] op = "ior" -> R(BitOp(BOr, x, y, w))
       [] op = "ixor" -> R(BitOp(BXor, x, y, w))
       [] op = "inot" -> R(BSub(BSub(Pow(lw), <<1>>), x))
       [] op = "ishl" -> R(IF ~BLt(y, BOf(w)) THEN BZero ELSE Mod2(BShl(x, BInt(y)), lw))
       [] op = "ishr" -> R(IF ~BLt(y, BOf(w)) THEN BZero ELSE BShr(x, BInt(y)))
       [] op = "irotl" -> R(Rot(x, ModW(y, w), w))
       [] op = "irotr" -> R(Rot(x, (w - ModW(y, w)) % w, w))
       [] op = "iu_to_s" -> IF Minus(x, lw) THEN Undef ELSE R(x)
       [] op = "is_to_u" -> IF Minus(x, lw) THEN Undef ELSE R(x)
       [] OTHER -> AnyOf
-----------------------------------------------------------------------------
(* float64: sign, exponent and significand; value = (-1)^s * m * 2^e          *)
FS(d) == BBit(d, 63)
FX(d) == BInt(BLow(BShr(d, 52), 11))
FM(d) == IF FX(d) = 0 THEN BLow(d, 52) ELSE BAdd(BLow(d, 52), BPow2(52))
FE(d) == IF FX(d) = 0 THEN -1074 ELSE FX(d) - 1075
FFinite(d) == FX(d) # 2047
\* nearest float64 to (-1)^s * m * 2^e, ties to even; "inf" when out of range
FRound(s, m, e) ==
  LET sb == IF s = 1 THEN BPow2(63) ELSE BZero
  IN IF m = BZero THEN sb
     ELSE LET q == LET t == e + BLen(m) - 53 IN IF t < -1074 THEN -1074 ELSE t
              sh == q - e
              m0 == IF sh <= 0 THEN BShl(m, -sh) ELSE BShr(m, sh)
              up == sh > 0 /\ BBit(m, sh - 1) = 1 /\ (BBit(m0, 0) = 1 \/ BLow(m, sh - 1) # BZero)
              m1 == IF up THEN BAdd(m0, <<1>>) ELSE m0
              big == BLen(m1) = 54
              m2 == IF big THEN BShr(m1, 1) ELSE m1
              q2 == IF big THEN q + 1 ELSE q
          IN IF q2 > 971 THEN <<-1>>
             ELSE IF BLen(m2) < 53 THEN BAdd(sb, m2)
             ELSE BAdd(sb, BAdd(BShl(BOf(q2 + 1075), 52), BSub(m2, BPow2(52))))
FInf == <<-1>>
FNeg(d) == IF FS(d) = 1 THEN BSub(d, BPow2(63)) ELSE BAdd(d, BPow2(63))
FAbs(d) == BLow(d, 63)
FZero(d) == FAbs(d) = BZero
FLt(a, b) == IF FZero(a) /\ FZero(b) THEN FALSE
             ELSE IF FS(a) # FS(b) THEN FS(a) = 1
             ELSE IF FS(a) = 0 THEN BLt(a, b) ELSE BLt(b, a)
FEq(a, b) == a = b \/ (FZero(a) /\ FZero(b))
FAdd(a, b) ==
  LET e == IF FE(a) < FE(b) THEN FE(a) ELSE FE(b)
      ma == BShl(FM(a), FE(a) - e)
      mb == BShl(FM(b), FE(b) - e)
  IN IF FS(a) = FS(b) THEN FRound(FS(a), BAdd(ma, mb), e)
     ELSE IF ma = mb THEN BZero
     ELSE IF BLt(ma, mb) THEN FRound(FS(b), BSub(mb, ma), e) ELSE FRound(FS(a), BSub(ma, mb), e)
FMul(a, b) == FRound((FS(a) + FS(b)) % 2, BMul(FM(a), FM(b)), FE(a) + FE(b))
FDiv(a, b) ==
  LET s == (FS(a) + FS(b)) % 2
      k == BMax2(0, 58 + BLen(FM(b)) - BLen(FM(a)))
      d == BDivMod(BShl(FM(a), k), FM(b))
  IN IF FZero(b) THEN FInf
     ELSE FRound(s, BAdd(BShl(d[1], 1), IF d[2] = BZero THEN BZero ELSE <<1>>), FE(a) - FE(b) - k - 1)
\* integer part and whether a fraction is left
FTrunc(d) == IF FE(d) >= 0 THEN BShl(FM(d), FE(d)) ELSE BShr(FM(d), -FE(d))
FFrac(d) == FE(d) < 0 /\ BLow(FM(d), -FE(d)) # BZero
FHalf(d) == FE(d) < 0 /\ BLow(FM(d), -FE(d)) = BPow2(-FE(d) - 1)
FMore(d) == FE(d) < 0 /\ BBit(FM(d), -FE(d) - 1) = 1
FloatOp(op, a) ==
  LET x == a[1][2]
      y == a[2][2]
      R(d) == IF d = FInf THEN Undef ELSE Def(<<<<"f", d>>>>)
      B(b) == Def(<<Bool(b)>>)
  IN CASE op = "feq" -> B(FEq(x, y))
       [] op = "fne" -> B(~FEq(x, y))
       [] op = "flt" -> B(FLt(x, y))
       [] op = "fgt" -> B(FLt(y, x))
       [] op = "fle" -> B(FLt(x, y) \/ FEq(x, y))
       [] op = "fge" -> B(FLt(y, x) \/ FEq(x, y))
       [] op = "fmax" -> IF FZero(x) /\ FZero(y) THEN AnyOf ELSE R(IF FLt(x, y) THEN y ELSE x)
       [] op = "fmin" -> IF FZero(x) /\ FZero(y) THEN AnyOf ELSE R(IF FLt(x, y) THEN x ELSE y)
       [] op = "fadd" -> R(FAdd(x, y))
       [] op = "fsub" -> R(FAdd(x, FNeg(y)))
       [] op = "fmul" -> R(FMul(x, y))
       [] op = "fdiv" -> R(FDiv(x, y))
       [] op = "fneg" -> R(FNeg(x))
       [] op = "fabs" -> R(FAbs(x))
       [] op = "ffloor" -> R(FRound(FS(x), IF FS(x) = 1 /\ FFrac(x) THEN BAdd(FTrunc(x), <<1>>) ELSE FTrunc(x), 0))
       [] op = "fceil" -> R(FRound(FS(x), IF FS(x) = 0 /\ FFrac(x) THEN BAdd(FTrunc(x), <<1>>) ELSE FTrunc(x), 0))
       [] op = "fround" -> IF FHalf(x) THEN AnyOf       \* which way ties go is not specified
                           ELSE R(FRound(FS(x), IF FMore(x) THEN BAdd(FTrunc(x), <<1>>) ELSE FTrunc(x), 0))
       [] OTHER -> AnyOf
ConvOp(op, ws, a) ==
  LET x == a[1]
      lw == ws[1]
      d == x[2]
      t == FTrunc(d)
  IN CASE op = "trunc_u" -> Def(<<IF t = BZero \/ (FS(d) = 0 /\ BLen(t) <= W(lw)) THEN Ok(I(lw, t)) ELSE Err>>)
       [] op = "trunc_s" -> Def(<<LET fits == IF FS(d) = 1 THEN BLe(t, BPow2(W(lw) - 1)) ELSE BLt(t, BPow2(W(lw) - 1))
                                  IN IF fits THEN Ok(I(lw, IF FS(d) = 1 THEN Neg(t, lw) ELSE t)) ELSE Err>>)
       [] op = "convert_u" -> Def(<<<<"f", FRound(0, x[3], 0)>>>>)
       [] op = "convert_s" -> Def(<<<<"f", FRound(IF Minus(x[3], lw) THEN 1 ELSE 0, Mag(x[3], lw), 0)>>>>)
       [] op = "itobool" -> Def(<<Bool(x[3] = <<1>>)>>)
       [] op = "ifrombool" -> Def(<<I(0, IF x = True THEN <<1>> ELSE BZero)>>)
       [] op = "itostring_u" -> Def(<<<<"q", BDec(x[3])>>>>)
       [] op = "itostring_s" -> Def(<<<<"q", IF Minus(x[3], lw) THEN "-" \o BDec(Mag(x[3], lw)) ELSE BDec(x[3])>>>>)
       [] op = "itousize" -> Def(<<<<"z", x[3]>>>>)
       [] op = "ifromusize" -> Def(<<I(6, x[2])>>)
       [] op = "bytecast_int64_to_float64" -> Def(<<<<"f", x[3]>>>>)
       [] op = "bytecast_float64_to_int64" -> Def(<<I(6, x[2])>>)
       [] OTHER -> AnyOf
LogicOp(op, a) ==
  LET B(b) == Def(<<Bool(b)>>)
  IN CASE op = "And" -> B(a[1] = True /\ a[2] = True)
       [] op = "Or" -> B(a[1] = True \/ a[2] = True)
       [] op = "Eq" -> B(a[1] = a[2])
       [] op = "Xor" -> B(a[1] # a[2])
       [] op = "Not" -> B(a[1] # True)
       [] OTHER -> AnyOf
ListOp(op, a) ==
  LET l == a[1][2]
      n == Len(l)
      i == BInt(a[2][2])
      in == i < n
      none == <<"s", 0, <<>>>>
  IN CASE op = "pop" -> IF n = 0 THEN Def(<<a[1], none>>) ELSE Def(<<<<"l", SubSeq(l, 1, n - 1)>>, Ok(l[n])>>)
       [] op = "push" -> Def(<<<<"l", Append(l, a[2])>>>>)
       [] op = "get" -> Def(<<IF in THEN Ok(l[i + 1]) ELSE none>>)
       [] op = "set" -> IF in THEN Def(<<<<"l", [l EXCEPT ![i + 1] = a[3]]>>, Ok(l[i + 1])>>)
                        ELSE Def(<<a[1], <<"s", 0, <<a[3]>>>>>>)
       [] op = "insert" -> IF in THEN Def(<<<<"l", SubSeq(l, 1, i) \o <<a[3]>> \o SubSeq(l, i + 1, n)>>, Ok(Tup(<<>>))>>)
                           ELSE Def(<<a[1], <<"s", 0, <<a[3]>>>>>>)
       [] op = "length" -> Def(<<a[1], <<"z", BOf(n)>>>>)
       [] OTHER -> AnyOf
PreludeOp(op, ws, a) ==
  CASE op = "MakeTuple" -> Def(<<Tup(a)>>)
    [] op = "UnpackTuple" -> Def(a[1][3])
    [] op = "Noop" -> Def(a)
    [] op = "load_nat" -> Def(<<<<"z", ws>>>>)
    [] OTHER -> AnyOf
StdOp(ext, op, ws, a) ==
  CASE ext = "arithmetic.int" -> IntOp(op, ws, a)
    [] ext = "arithmetic.float" -> FloatOp(op, a)
    [] ext = "arithmetic.conversions" -> ConvOp(op, ws, a)
    [] ext = "logic" -> LogicOp(op, a)
    [] ext = "collections.list" -> ListOp(op, a)
    [] ext = "prelude" -> PreludeOp(op, ws, a)
    [] OTHER -> AnyOf
-----------------------------------------------------------------------------
(* v is a value of type t                                                     *)
RECURSIVE Inhabits(_, _)
Inhabits(v, t) ==
  CASE t[1] = "S" -> /\ v[1] = "s" /\ v[2] < Len(t[2])
                     /\ LET r == t[2][v[2] + 1] IN Len(v[3]) = Len(r) /\ \A i \in DOMAIN r : Inhabits(v[3][i], r[i])
    [] t[1] = "I" -> v[1] = "i" /\ v[2] = t[2] /\ BLen(v[3]) <= W(t[2])
    [] t[1] = "X" -> CASE t[2] = "usize" -> v[1] = "z"
                       [] t[2] = "float64" -> v[1] = "f"
                       [] t[2] = "string" -> v[1] = "q"
                       [] t[2] = "error" -> v[1] = "e"
                       [] t[2] = "List" -> v[1] = "l" /\ \A i \in DOMAIN v[2] : Inhabits(v[2][i], t[3][1])
                       [] OTHER -> TRUE
    [] OTHER -> TRUE
\* some values of a type, for inputs that are not known at compile time
RECURSIVE Samples(_)
Samples(t) ==
  CASE t[1] = "I" -> {I(t[2], BZero), I(t[2], <<1>>), I(t[2], BSub(Pow(t[2]), <<1>>)), I(t[2], BPow2(W(t[2]) - 1))}
    [] t[1] = "S" -> IF \E i \in DOMAIN t[2] : t[2][i] = <<>> THEN {<<"s", i - 1, <<>>>> : i \in {j \in DOMAIN t[2] : t[2][j] = <<>>}} ELSE {<<"?">>}
    [] t[1] = "X" -> CASE t[2] = "usize" -> {<<"z", BZero>>, <<"z", <<3>>>>}
                       [] t[2] = "float64" -> {<<"f", BZero>>, <<"f", FNeg(FRound(0, <<3>>, -1))>>}
                       [] t[2] = "List" -> {<<"l", <<>>>>}
                       [] OTHER -> {<<"?">>}
    [] OTHER -> {<<"?">>}
=============================================================================
