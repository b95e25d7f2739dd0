-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Unbounded integers.  TLA+'s Int is unbounded, TLC's is 32-bit, so the   *)
(* specification carries its own integers: <<sign, d1, d2, ...>> with       *)
(* sign in {-1,0,1} and little-endian digits in base 10^4, no leading zero *)
(* digit, zero = <<0>>.  The representation is canonical, so TLA+ equality *)
(* is numeric equality.  Every operator below is a complete TLA+           *)
(* definition; java/pyrusov re-implements the same operators on            *)
(* java.math.BigInteger for speed, and MC_Big.tla checks, under TLC, that  *)
(* the accelerated operators agree with these definitions.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

BZero == <<0>>
BOne  == <<1, 1>>

\* --- magnitudes: sequences of digits, little endian, no leading zeros ----
RECURSIVE MTrim(_), MAddC(_, _, _, _), MSubB(_, _, _, _), MMulD(_, _, _, _)
RECURSIVE MCmpAt(_, _, _)

MTrim(m) == IF m = <<>> THEN <<>>
            ELSE IF m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

MAddC(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == Dig(a, i) + Dig(b, i) + c
         IN <<s % Base>> \o MAddC(a, b, i + 1, s \div Base)
MAdd(a, b) == MAddC(a, b, 1, 0)

\* a - b for a >= b
MSubB(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == Dig(a, i) - Dig(b, i) - c
         IN IF s < 0 THEN <<s + Base>> \o MSubB(a, b, i + 1, 1)
                     ELSE <<s>> \o MSubB(a, b, i + 1, 0)
MSub(a, b) == MTrim(MSubB(a, b, 1, 0))

MMulD(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == a[i] * d + c IN <<s % Base>> \o MMulD(a, d, i + 1, s \div Base)

RECURSIVE MMul(_, _)
MMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE MAdd(MTrim(MMulD(a, b[1], 1, 0)),
                        LET r == MMul(a, MTrim(Tail(b)))
                        IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

MCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                   ELSE MCmpAt(a, b, i - 1)
MCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE MCmpAt(a, b, Len(a))

\* largest digit q with b*q <= r, by bisection
RECURSIVE MQDig(_, _, _, _)
MQDig(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF MCmp(MTrim(MMulD(b, mid, 1, 0)), r) <= 0 THEN MQDig(r, b, mid, hi)
            ELSE MQDig(r, b, lo, mid - 1)

\* schoolbook division of magnitudes: <<quotient, remainder>>
RECURSIVE MDivAt(_, _, _, _, _)
MDivAt(a, b, i, q, r) ==
    IF i = 0 THEN <<MTrim(q), r>>
    ELSE LET r1 == MTrim(<<a[i]>> \o r)
             d  == MQDig(r1, b, 0, Base - 1)
         IN MDivAt(a, b, i - 1, <<d>> \o q, MSub(r1, MTrim(MMulD(b, d, 1, 0))))
MDivMod(a, b) == MDivAt(a, b, Len(a), <<>>, <<>>)

\* --- signed integers ------------------------------------------------------
Mag(x) == Tail(x)
Mk(s, m) == IF m = <<>> THEN BZero ELSE <<s>> \o m

RECURSIVE MOfNat(_)
MOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MOfNat(n \div Base)
BOfInt(i) == IF i < 0 THEN Mk(-1, MOfNat(-i)) ELSE Mk(1, MOfNat(i))

BSgn(x) == x[1]
BNeg(x) == Mk(-x[1], Mag(x))
BAbs(x) == Mk(1, Mag(x))
BCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
              ELSE IF x[1] >= 0 THEN MCmp(Mag(x), Mag(y)) ELSE MCmp(Mag(y), Mag(x))
BAdd(x, y) == IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE IF x[1] = y[1] THEN Mk(x[1], MAdd(Mag(x), Mag(y)))
              ELSE LET c == MCmp(Mag(x), Mag(y))
                   IN IF c = 0 THEN BZero
                      ELSE IF c > 0 THEN Mk(x[1], MSub(Mag(x), Mag(y)))
                      ELSE Mk(y[1], MSub(Mag(y), Mag(x)))
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == Mk(x[1] * y[1], MMul(Mag(x), Mag(y)))

\* floor division and non-negative remainder, for a positive divisor
BDiv(x, y) == LET qr == MDivMod(Mag(x), Mag(y))
              IN IF x[1] >= 0 THEN Mk(1, qr[1])
                 ELSE IF qr[2] = <<>> THEN Mk(-1, qr[1])
                 ELSE Mk(-1, MAdd(qr[1], <<1>>))
BMod(x, y) == BSub(x, BMul(BDiv(x, y), y))

RECURSIVE BGcd(_, _)
BGcd(x, y) == IF y[1] = 0 THEN BAbs(x) ELSE BGcd(y, Mk(1, MDivMod(Mag(x), Mag(y))[2]))

\* floor of the square root of a non-negative integer (Newton from above)
RECURSIVE BSqrtN(_, _)
BSqrtN(x, g) == LET h == BDiv(BAdd(g, BDiv(x, g)), <<1, 2>>)
                IN IF BCmp(h, g) >= 0 THEN g ELSE BSqrtN(x, h)
BSqrt(x) == IF x[1] = 0 THEN BZero ELSE BSqrtN(x, BAdd(x, BOne))
=============================================================================
