-------------------------------- MODULE Wide --------------------------------
(* Whole numbers of any size (TLC's own are 32 bits): <<s, l1, l2, ...>> with s = 1 for negative
   numbers and the magnitude in limbs of base 1000, least significant first, no leading zero limbs.
   Zero is <<0>>.                                                                                *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
B == 1000
WZero == <<0>>
Mag(w) == Tail(w)
RECURSIVE MTrim(_)
MTrim(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m
\* to the sign s and the magnitude m
Signed(s, m) == LET t == MTrim(m) IN IF t = <<>> THEN WZero ELSE <<s>> \o t
RECURSIVE MOf(_)
MOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o MOf(n \div B)
Of(n) == IF n < 0 THEN Signed(1, MOf(0 - n)) ELSE Signed(0, MOf(n))
IsWide(w) == Len(w) > 0 /\ w[1] \in {0, 1} /\ (\A i \in 2..Len(w) : w[i] \in 0..(B - 1)) /\ (Len(w) > 1 => w[Len(w)] # 0) /\ (Len(w) = 1 => w[1] = 0)
LL(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
RECURSIVE MAdd(_, _, _, _)
MAdd(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == LL(a, i) + LL(b, i) + c IN <<s % B>> \o MAdd(a, b, i + 1, s \div B)
\* a >= b
RECURSIVE MSub(_, _, _, _)
MSub(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET s == LL(a, i) - LL(b, i) - c IN IF s < 0 THEN <<s + B>> \o MSub(a, b, i + 1, 1) ELSE <<s>> \o MSub(a, b, i + 1, 0)
RECURSIVE MLessFrom(_, _, _)
MLessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE MLessFrom(a, b, i - 1)
MLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE MLessFrom(a, b, Len(a))
\* times a number up to 10^6, divided by one
RECURSIVE MMulS(_, _, _, _)
MMulS(a, k, i, c) == IF i > Len(a) THEN MOf(c) ELSE LET s == a[i] * k + c IN <<s % B>> \o MMulS(a, k, i + 1, s \div B)
RECURSIVE MDivS(_, _, _, _)
MDivS(a, k, i, rem) == IF i = 0 THEN <<>> ELSE LET s == rem * B + a[i] IN MDivS(a, k, i - 1, s % k) \o <<s \div k>>
RECURSIVE MModS(_, _, _, _)
MModS(a, k, i, rem) == IF i = 0 THEN rem ELSE MModS(a, k, i - 1, (rem * B + a[i]) % k)
WNeg(w) == IF w = WZero THEN w ELSE <<1 - w[1]>> \o Mag(w)
WAbs(w) == <<0>> \o Mag(w)
WAdd(x, y) == IF x[1] = y[1] THEN Signed(x[1], MAdd(Mag(x), Mag(y), 1, 0))
              ELSE IF MLess(Mag(x), Mag(y)) THEN Signed(y[1], MSub(Mag(y), Mag(x), 1, 0)) ELSE Signed(x[1], MSub(Mag(x), Mag(y), 1, 0))
WSub(x, y) == WAdd(x, WNeg(y))
WLess(x, y) == IF x[1] # y[1] THEN x[1] = 1 ELSE IF x[1] = 0 THEN MLess(Mag(x), Mag(y)) ELSE MLess(Mag(y), Mag(x))
WLeq(x, y) == ~WLess(y, x)
WMul(w, k) == IF k < 0 THEN Signed(1 - w[1], MMulS(Mag(w), 0 - k, 1, 0)) ELSE Signed(w[1], MMulS(Mag(w), k, 1, 0))
\* quotient towards zero
WDiv(w, k) == Signed(w[1], MDivS(Mag(w), k, Len(w) - 1, 0))
\* of the magnitude
WMod(w, k) == MModS(Mag(w), k, Len(w) - 1, 0)
RECURSIVE WMulAll(_, _)
WMulAll(w, ks) == IF ks = <<>> THEN w ELSE WMulAll(WMul(w, Head(ks)), Tail(ks))
RECURSIVE WDivAll(_, _)
WDivAll(w, ks) == IF ks = <<>> THEN w ELSE WDivAll(WDiv(w, Head(ks)), Tail(ks))
\* powers of two
RECURSIVE WPow2(_)
WPow2(n) == IF n <= 19 THEN WMul(Of(1), 2^n) ELSE WMul(WPow2(n - 19), 2^19)
\* rep = <<signed, bits>>
WFits(w, rep) == IF rep[1] THEN WLess(w, WPow2(rep[2] - 1)) /\ WLeq(WNeg(WPow2(rep[2] - 1)), w) ELSE w[1] = 0 /\ WLess(w, WPow2(rep[2]))
WMax(rep) == WSub(WPow2(IF rep[1] THEN rep[2] - 1 ELSE rep[2]), Of(1))
WMin(rep) == IF rep[1] THEN WNeg(WPow2(rep[2] - 1)) ELSE WZero
=============================================================================
