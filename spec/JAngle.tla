------------------------------- MODULE JAngle -------------------------------
(***************************************************************************)
(* AngleDeg.  The abstract state of an angle object is its degree d; the   *)
(* object invariant is d \in [-180, 180], and every operation is defined   *)
(* modulo 360.                                                             *)
(*   A  argument values before the call (A[1] is the receiver)             *)
(*   r  result, P  argument values after the call                          *)
(*   g  the inputs are small dyadic numbers: floating point is exact       *)
(***************************************************************************)
EXTENDS Val

AT(x) == E12 (+) (E13 (.) RAbs(x))
\* degrees travelled counter-clockwise (increasing) from x to y, in [0, 360)
Turn(x, y) == Mod360(y (-) x)

\* Opposite representations of the half turn (-180 and 180) denote the same
\* direction; comparisons between the two are left open.
HalfTurn(x) == Near(Mod360(x), D180, E9)
Split180(x, y) == x # y /\ HalfTurn(x) /\ HalfTurn(y)

\* does the turn x -> y lie strictly inside (0,180), resp. in [0,180)?
Ahead3(x, y, m)   == LET d == Turn(x, y) IN
                     IF m # Z /\ (d \prec m \/ d \succ (D360 (-) m)) THEN "?"
                     ELSE And3(Pos3(d, m), Lt3(d, D180, m))
AheadEq3(x, y, m) == LET d == Turn(x, y) IN
                     IF m # Z /\ (d \prec m \/ d \succ (D360 (-) m)) THEN "?"
                     ELSE Lt3(d, D180, m)
\* s on the arc that runs counter-clockwise from l to r (ends included)
Within3(l, s, r, m) ==
    LET a == Turn(l, s) b == Turn(l, r) IN
    IF Split180(l, s) \/ Split180(l, r) \/ Split180(s, r) THEN "?"
    ELSE IF m # Z /\ (a \prec m \/ a \succ (D360 (-) m) \/ b \prec m \/ b \succ (D360 (-) m)
                      \/ Near(a, b, m)) THEN "?"
    ELSE T3(a \preceq b)

Order3(f(_, _, _), x, y, m) == IF Split180(x, y) THEN "?" ELSE f(x, y, m)

\* half-way along the counter-clockwise arc from rt to lf
JBisect(r, lf, rt) ==
    LET d == Turn(rt, lf)
    IN IF r.t # "ang" THEN {"type"}
       ELSE C("range", RAbs(r.d) \preceq D180)
            \cup C("equidistant", Near(CircDist(r.d, lf), CircDist(r.d, rt), E9))
            \cup (IF d \prec E6 \/ d \succ (D360 (-) E6) \/ Near(d, D180, E6)
                  THEN Unk
                  ELSE C("halfway", CircDist(r.d, rt (+) (d (/) Two)) \preceq E9))

JAngle(m, A, r, P, g) ==
    LET mg == IF g THEN Z ELSE E9
        d == A[1].d              \* receiver (methods only)
        q == P[1].d              \* receiver afterwards
        x == Deg(A[2])
        M(v) == JAng(P[1], v, AT(v))                       \* receiver becomes v
    IN CASE m = "new0" -> JAng(r, Z, Z)
         [] m \in {"new", "newaf"} -> JAng(r, A[1].v, AT(A[1].v))
         [] m = "newA" -> JAng(r, A[1].d, Z)
         [] m \in {"degree", "degree_", "float"} -> JNum(r, d, Z) \cup C("range", RAbs(d) \preceq D180)
         [] m = "set_degree" -> M(x)
         [] m = "set_angle" -> M(x)
         [] m = "normal" -> JSame(P[1], A[1])
         [] m = "abs" -> JNum(r, RAbs(d), Z)
         [] m = "radian" -> JNum(r, Rad(d), E12)
         [] m = "copy" -> JSame(r, A[1])
         [] m = "reverse" -> M(d (+) D180)
         [] m = "reverse_angle" -> JAng(r, d (+) D180, E12)
         [] m = "get_normalized" -> JNum(r, (d (+) D180) (/) D360, E12)
         [] m = "add" -> JAng(r, d (+) x, AT(x))
         [] m = "sub" -> JAng(r, d (-) x, AT(x))
         [] m = "mul" -> JAng(r, d (.) x, AT(d (.) x))
         [] m = "neg" -> JAng(r, RNeg(d), Z)
         [] m = "iadd" -> JAng(P[1], d (+) x, AT(x)) \cup JSame(r, P[1])
         [] m = "isub" -> JAng(P[1], d (-) x, AT(x)) \cup JSame(r, P[1])
         [] m = "imul" -> JAng(P[1], d (.) x, AT(d (.) x)) \cup JSame(r, P[1])
         \* //: the documentation says floor division, the code divides; either will do
         [] m = "floordiv" -> LET v == d (/) x IN
                IF r.t = "ang" /\ CircDist(r.d, v) \preceq AT(v) THEN JAng(r, v, AT(v)) ELSE JAng(r, RFloor(v), AT(v))
         [] m = "itruediv" -> JAng(P[1], d (/) x, AT(d (/) x)) \cup JSame(r, P[1])
         [] m = "normalize_angle" -> IF r.t # "num" THEN {"type"}
                  ELSE JAng([t |-> "ang", d |-> r.v], A[1].v, AT(A[1].v))
         [] m = "eq" -> IF CircDist(d, x) \prec (Two (.) E6) /\ ~Near(d, x, RInt(1)) THEN Unk
                        ELSE JBool(r, Lt3(RAbs(d (-) x), EPSILON, E12))
         [] m = "is_left_of"        -> JBool(r, Order3(Ahead3, d, x, mg))
         [] m = "is_right_of"       -> JBool(r, Order3(Ahead3, x, d, mg))
         [] m = "is_left_equal_of"  -> JBool(r, Order3(AheadEq3, d, x, mg))
         [] m = "is_right_equal_of" -> JBool(r, Order3(AheadEq3, x, d, mg))
         [] m = "is_within" -> JBool(r, Within3(x, d, Deg(A[3]), mg))
         [] m = "bisect" -> JBisect(r, Deg(A[1]), Deg(A[2]))
         [] m = "cos" -> JNum(r, CosD(d), E12)
         [] m = "sin" -> JNum(r, SinD(d), E12)
         [] m = "tan" -> LET c == CosD(d) IN
                         IF RAbs(c) \prec E4 THEN Unk ELSE JNum(r, SinD(d) (/) c, E12 (/) Sq(c))
         [] m = "rad2deg" -> JNum(r, (A[1].v (.) D180) (/) PI, Rel12(RInt(60) (.) A[1].v))
         [] m = "deg2rad" -> JNum(r, Rad(A[1].v), Rel12(A[1].v))
         [] m = "cos_deg" -> JNum(r, CosD(A[1].v), AT(A[1].v))
         [] m = "sin_deg" -> JNum(r, SinD(A[1].v), AT(A[1].v))
         [] m = "tan_deg" -> LET c == CosD(A[1].v) IN
                             IF RAbs(c) \prec E4 THEN Unk
                             ELSE JNum(r, SinD(A[1].v) (/) c, AT(A[1].v) (/) Sq(c))
         [] m = "acos_deg" ->
              IF r.t # "num" THEN {"type"}
              ELSE IF A[1].v \succeq One THEN C("clamp", r.v = Z)
              ELSE IF A[1].v \preceq RInt(-1) THEN C("clamp", r.v = D180)
              ELSE C("range", Z \preceq r.v /\ r.v \preceq D180)
                   \cup C("inverse", Near(CosD(r.v), A[1].v, E12))
         [] m = "asin_deg" ->
              IF r.t # "num" THEN {"type"}
              ELSE IF A[1].v \succeq One THEN C("clamp", r.v = D90)
              ELSE IF A[1].v \preceq RInt(-1) THEN C("clamp", r.v = RNeg(D90))
              ELSE C("range", RAbs(r.v) \preceq D90)
                   \cup C("inverse", Near(SinD(r.v), A[1].v, E12))
         [] m = "atan_deg" ->
              IF r.t # "num" THEN {"type"}
              ELSE C("range", RAbs(r.v) \preceq D90)
                   \cup C("inverse", Near(SinD(r.v), A[1].v (.) CosD(r.v), Tol12(A[1].v)))
         [] m = "atan2_deg" ->                       \* (y, x)
              LET w == Vec(A[2].v, A[1].v) n == VSc(w) IN
              IF r.t # "num" THEN {"type"}
              ELSE IF n \prec (EPSILON (-) E12) THEN C("origin", r.v = Z)
              ELSE IF n \preceq (EPSILON (+) E12) THEN Unk
              ELSE JDir([t |-> "ang", d |-> r.v], w, E12)
         [] OTHER -> {"unknown-op"}
=============================================================================
