-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic of the specification: infix notation over the exact     *)
(* rationals of Rat.tla, the transcendental functions the library is       *)
(* specified with (as truncated series, absolute error below 10^-25), and   *)
(* the vocabulary of verdicts.                                             *)
(*                                                                         *)
(* A verdict is a set of strings.  {} is agreement; "?" says the judged    *)
(* fact lies too close to a decision boundary for floating point to be     *)
(* held to it; anything else names the clause of the specification that    *)
(* the implementation broke.                                               *)
(***************************************************************************)
EXTENDS Rat, TLC

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b == RGt(a, b)
a \succeq b == RGe(a, b)

Z    == <<BZero, BOne>>
One  == <<BOne, BOne>>
Two  == RInt(2)
Half == RFrac(1, 2)
Sq(x) == x (.) x

E3   == RFrac(1, 1000)
E4   == RFrac(1, 10000)
E5   == RFrac(1, 100000)
E6   == RFrac(1, 1000000)
E7   == RFrac(1, 10000000)
E8   == RFrac(1, 100000000)
E9   == RFrac(1, 1000000000)
E10  == RMk(BOne, <<1, 0, 0, 100>>)
E11  == RMk(BOne, <<1, 0, 0, 1000>>)
E12  == RMk(BOne, <<1, 0, 0, 0, 1>>)
E13  == RMk(BOne, <<1, 0, 0, 0, 10>>)
Big20 == <<<<1, 0, 0, 0, 0, 0, 1>>, BOne>>         \* 10^20, the library's error value

\* The library's two thresholds (math_values): they are part of the API's meaning.
EPSILON    == E6
CALC_ERROR == E9

PI == << <<1,4929,7210,9875,4581,6608,9615,4830,3974,8163,8539,7>>,
         <<1,0,0,0,0,0,0,0,0,0,5000,2>> >>
LN2 == << <<1,2071,8227,151,7154,6367,9931,7569,4339,866>>,
          <<1,0,0,0,0,0,0,0,0,1250>> >>

D90 == RInt(90)
D180 == RInt(180)
D360 == RInt(360)

Near(x, y, tol) == RAbs(x (-) y) \preceq tol

\* --- magnitudes and tolerances --------------------------------------------
RECURSIVE MaxAbs(_)
MaxAbs(s) == IF s = <<>> THEN Z ELSE RMax(RAbs(Head(s)), MaxAbs(Tail(s)))
RECURSIVE SumAbs(_)
SumAbs(s) == IF s = <<>> THEN Z ELSE RAbs(Head(s)) (+) SumAbs(Tail(s))
AtLeast1(x) == RMax(One, RAbs(x))
\* rounding budget relative to the magnitudes that enter a computation
Tol12(s) == E12 (.) AtLeast1(s)
Tol11(s) == E11 (.) AtLeast1(s)
Tol10(s) == E10 (.) AtLeast1(s)
Tol9(s)  == E9 (.) AtLeast1(s)
\* purely relative: for computations without additive constants, right at every scale
Rel12(s) == E12 (.) RAbs(s)
Rel11(s) == E11 (.) RAbs(s)

\* --- three-valued truth ----------------------------------------------------
T3(b) == IF b THEN "T" ELSE "F"
Not3(a) == IF a = "T" THEN "F" ELSE IF a = "F" THEN "T" ELSE "?"
And3(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" /\ b = "T" THEN "T" ELSE "?"
Or3(a, b)  == Not3(And3(Not3(a), Not3(b)))
\* x > 0 and x >= 0, with an uncertainty of m around 0 (m = 0: exact)
Pos3(x, m) == IF x \succ m THEN "T"
              ELSE IF m = Z \/ x \prec RNeg(m) THEN "F" ELSE "?"
NonNeg3(x, m) == Not3(Pos3(RNeg(x), m))
Lt3(x, y, m) == Pos3(y (-) x, m)
Le3(x, y, m) == NonNeg3(y (-) x, m)
RECURSIVE All3(_), Any3(_)
All3(s) == IF s = <<>> THEN "T" ELSE And3(Head(s), All3(Tail(s)))
Any3(s) == IF s = <<>> THEN "F" ELSE Or3(Head(s), Any3(Tail(s)))

\* --- verdicts ----------------------------------------------------------------
Ok == {}
Unk == {"?"}
C(name, cond) == IF cond THEN {} ELSE {name}

\* --- trigonometry in degrees ---------------------------------------------------
Mod360(x) == x (-) (D360 (.) RFloor(x (/) D360))                 \* [0, 360)
DegRed(x) == x (-) (D360 (.) RFloor((x (+) D180) (/) D360))       \* [-180, 180)
\* distance of x - y to the nearest multiple of 360
CircDist(x, y) == LET m == Mod360(x (-) y) IN RMin(m, D360 (-) m)

RECURSIVE SinSer(_, _, _, _)
SinSer(z2, term, k, acc) ==
    IF k > 35 THEN acc
    ELSE LET t == RTrunc(RNeg(term (.) z2) (/) RInt((k + 1) * (k + 2)))
         IN SinSer(z2, TLCEval(t), k + 2, TLCEval(acc (+) t))
SinRad(z) == LET y == RTrunc(z) IN SinSer(RTrunc(Sq(y)), y, 1, y)
Fold90(y) == IF y \succ D90 THEN D180 (-) y
             ELSE IF y \prec RNeg(D90) THEN RNeg(D180) (-) y ELSE y
SinD(x) == SinRad((Fold90(DegRed(x)) (.) PI) (/) D180)
CosD(x) == SinD(x (+) D90)
Rad(x) == (x (.) PI) (/) D180

\* --- exponential and logarithm ---------------------------------------------------
RECURSIVE ExpSer(_, _, _, _), Pow2(_), PowInt(_, _), LnSer(_, _, _, _)
ExpSer(z, term, k, acc) ==
    IF k > 26 THEN acc
    ELSE LET t == RTrunc((term (.) z) (/) RInt(k))
         IN ExpSer(z, TLCEval(t), k + 1, TLCEval(acc (+) t))
Pow2(k) == IF k = 0 THEN One ELSE IF k < 0 THEN One (/) Pow2(-k) ELSE Two (.) Pow2(k - 1)
\* x^n for n >= 0, to 30 decimals when x < 1
PowInt(x, n) == IF n = 0 THEN One
                ELSE LET h == PowInt(x, n \div 2)
                     IN RTrunc(IF n % 2 = 0 THEN Sq(h) ELSE Sq(h) (.) x)

\* small Int value of an integral rational (|x| < 10^8)
RToInt(x) == x[1][1] * ((IF Len(x[1]) >= 2 THEN x[1][2] ELSE 0)
                        + 10000 * (IF Len(x[1]) >= 3 THEN x[1][3] ELSE 0))
Round(x) == RFloor(x (+) Half)

Exp(x) == LET k == Round(x (/) LN2)
              z == RTrunc(x (-) (k (.) LN2))
          IN RTrunc(ExpSer(z, One, 1, One) (.) Pow2(RToInt(k)))

LnSer(z2, p, k, acc) ==
    IF k > 45 THEN acc
    ELSE LnSer(z2, TLCEval(RTrunc(p (.) z2)), k + 2, TLCEval(acc (+) RTrunc(p (/) RInt(k))))
LnUnit(m) == LET z == RTrunc((m (-) One) (/) (m (+) One))
             IN Two (.) LnSer(RTrunc(Sq(z)), z, 1, Z)
RECURSIVE LnUp(_, _)
LnUp(x, k) == IF x \succ RFrac(3, 2) THEN LnUp(TLCEval(x (/) Two), k + 1)
              ELSE IF x \prec RFrac(3, 4) THEN LnUp(TLCEval(x (.) Two), k - 1)
              ELSE (RInt(k) (.) LN2) (+) LnUnit(x)
Ln(x) == LnUp(x, 0)                                                  \* x > 0
=============================================================================
