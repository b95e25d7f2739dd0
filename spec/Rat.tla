-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rationals <<numerator, denominator>>, denominator > 0, lowest     *)
(* terms: canonical, so TLA+ equality is numeric equality.  Every Python   *)
(* float is a dyadic rational, so recorded values enter the specification  *)
(* without rounding.                                                       *)
(***************************************************************************)
EXTENDS Big

RMk(n, d) == LET s == IF d[1] < 0 THEN -1 ELSE 1
                 g == BGcd(n, d)
             IN IF n[1] = 0 THEN <<BZero, BOne>>
                ELSE <<BDiv(IF s < 0 THEN BNeg(n) ELSE n, g), BDiv(BAbs(d), g)>>

RInt(i) == <<BOfInt(i), BOne>>
RFrac(i, j) == RMk(BOfInt(i), BOfInt(j))

RAdd(x, y) == RMk(BAdd(BMul(x[1], y[2]), BMul(y[1], x[2])), BMul(x[2], y[2]))
RSub(x, y) == RMk(BSub(BMul(x[1], y[2]), BMul(y[1], x[2])), BMul(x[2], y[2]))
RMul(x, y) == RMk(BMul(x[1], y[1]), BMul(x[2], y[2]))
RDiv(x, y) == RMk(BMul(x[1], y[2]), BMul(x[2], y[1]))     \* y # 0
RNeg(x) == <<BNeg(x[1]), x[2]>>
RAbs(x) == <<BAbs(x[1]), x[2]>>
RSgn(x) == x[1][1]
RCmp(x, y) == BCmp(BMul(x[1], y[2]), BMul(y[1], x[2]))
RLe(x, y) == RCmp(x, y) <= 0
RLt(x, y) == RCmp(x, y) < 0
RGe(x, y) == RCmp(x, y) >= 0
RGt(x, y) == RCmp(x, y) > 0
RMax(x, y) == IF RCmp(x, y) >= 0 THEN x ELSE y
RMin(x, y) == IF RCmp(x, y) <= 0 THEN x ELSE y

RFloor(x) == <<BDiv(x[1], x[2]), BOne>>
RIsInt(x) == x[2] = BOne

\* 10^-30 grid: floor to it, keeps long computations (series) bounded in size
Grid == <<1, 0, 0, 0, 0, 0, 0, 0, 100>>                                 \* 10^30
RTrunc(x) == RMk(BDiv(BMul(x[1], Grid), x[2]), Grid)

\* largest multiple of 10^-30 whose square is at most x >= 0
RSqrt(x) == RMk(BSqrt(BDiv(BMul(BMul(x[1], Grid), Grid), x[2])), Grid)
=============================================================================
