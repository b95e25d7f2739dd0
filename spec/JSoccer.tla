------------------------------ MODULE JSoccer ------------------------------
(***************************************************************************)
(* soccer_math: what the simulation server does to moving objects and to   *)
(* observed distances, written as the server's own step rules.              *)
(***************************************************************************)
EXTENDS Val

SERVER_EPS == E10

\* one simulation cycle of a coasting object: move by the velocity, then decay it
Coast(s, decay) == [pos |-> VAdd(s.pos, s.vel), vel |-> VMul(s.vel, decay)]
TruncV(p) == Vec(RTrunc(p.x), RTrunc(p.y))
RECURSIVE CoastN(_, _, _)
CoastN(s, decay, n) == IF n = 0 THEN s
    ELSE LET k == Coast(s, decay)
         IN CoastN(TLCEval([pos |-> TruncV(k.pos), vel |-> TruncV(k.vel)]), decay, n - 1)
\* n cycles move an object by reach.s times its velocity and leave reach.q of the velocity;
\* reach of 2n cycles is that of n cycles followed by that of n cycles
RECURSIVE Reach(_, _)
Reach(decay, n) ==
    IF n = 0 THEN [s |-> Z, q |-> One]
    ELSE IF n = 1 THEN [s |-> One, q |-> decay]
    ELSE LET h == Reach(decay, n \div 2)
             d == TLCEval([s |-> RTrunc(h.s (.) (One (+) h.q)), q |-> RTrunc(Sq(h.q))])
         IN IF n % 2 = 0 THEN d
            ELSE TLCEval([s |-> RTrunc(d.s (+) d.q), q |-> RTrunc(d.q (.) decay)])
Travel(vel, n, decay) == IF n <= 20 THEN CoastN([pos |-> Vec(Z, Z), vel |-> vel], decay, n).pos
                         ELSE VMul(vel, Reach(decay, n).s)

\* sum of the first n terms f, f q, f q^2, ...
RECURSIVE GeomSum(_, _, _)
GeomSum(f, q, n) == IF n = 0 THEN Z ELSE f (+) GeomSum(RTrunc(f (.) q), q, n - 1)

\* nearest integer, halves away from zero
RInteger(x) == IF RSgn(x) >= 0 THEN RFloor(x (+) Half) ELSE RNeg(RFloor(Half (-) x))
HalfWay(x, m) == Near(RAbs(x (-) RFloor(x)), Half, m)
\* division by these is exact
DivExact(q) == \E k \in {1, 2, 4, 8, 16, 32, 64} : q = RInt(k) \/ q = RFrac(1, k)
Quant(x, q) == RInteger(x (/) q) (.) q

SclTol(a, decay) == (E12 (.) AtLeast1(a)) (/) RMin(One, RAbs(One (-) decay))

QDist(d, q) == LET l == Ln(d (+) SERVER_EPS)
               IN <<l (/) q, Exp(Quant(l, q))>>
JQuantDist(r, d, q) ==
    LET l == Ln(d (+) SERVER_EPS)
        e == Exp(Quant(l, q))
    IN IF r.t # "num" THEN {"type"}
       ELSE IF HalfWay(l (/) q, E9 (/) q) \/ HalfWay(e (.) RInt(10), E8 (.) AtLeast1(e)) THEN Unk
       ELSE C("value", Near(r.v, Quant(e, RFrac(1, 10)), Tol11(e)))
UMin(x, q) == (RInteger(x (/) q) (-) Half) (.) q
UMax(x, q) == (RInteger(x (/) q) (+) Half) (.) q
JUnquantError(r, d, q) ==
    LET dm == RFrac(1, 10)
        lo == UMin(d, dm) hi == UMax(d, dm)
        near == lo \succ Z
        llo == IF near THEN Ln(lo) ELSE Z
        lhi == Ln(hi)
        min == IF near THEN Exp(UMin(llo, q)) ELSE SERVER_EPS
    IN IF r.t # "num" THEN {"type"}
       ELSE IF HalfWay(d (.) RInt(10), E9 (.) AtLeast1(d)) \/ hi \preceq Z THEN Unk
       ELSE IF (near /\ HalfWay(llo (/) q, E9 (/) q)) \/ HalfWay(lhi (/) q, E9 (/) q) THEN Unk
       ELSE C("value", Near(r.v, RAbs(Exp(UMax(lhi, q)) (-) min), Tol10(d (+) Exp(UMax(lhi, q)))))

\* arithmetic progression from a by step up to (not including) b
JRange(r, a, b, st, g) ==
    LET n == Len(r.v)
        q == (b (-) a) (/) st
        m == IF q \preceq Z THEN Z ELSE RNeg(RFloor(RNeg(q)))     \* ceiling
    IN IF r.t # "list" THEN {"type"}
       ELSE C("items", \A i \in 1..n : r.v[i].t = "num" /\ Near(r.v[i].v, a (+) (RInt(i - 1) (.) st),
                                          IF g THEN Z ELSE Tol10(RAbs(a) (+) RAbs(b))))
            \cup (IF ~g /\ Near(q, Round(q), E7) THEN Unk ELSE C("length", RInt(n) = m))

JSoccer(m, A, r, P, g) ==
    LET a == A[1].v
        b == A[2].v
        c == A[3].v
        d == A[4].v
        e == A[5].v
        f == A[6].v
        N(i) == RToInt(A[i].v)
    IN CASE m = "kick_rate" ->        \* dist, dir_diff, power rate, ball, player, margin
              LET w == One (-) (((RAbs(b) (/) D180) (.) RFrac(1, 4)))
                           (-) (((a (-) d (-) e) (/) f) (.) RFrac(1, 4))
              IN JNum(r, c (.) w, Tol11(RAbs(c) (.) (One (+) RAbs(b) (+) ((RAbs(a) (+) RAbs(d) (+) RAbs(e)) (/) RAbs(f)))))
         [] m = "dir_rate" ->         \* relative direction, back rate, side rate
              LET x == RAbs(a) IN
              JNum(r, IF x \succ D90 THEN c (+) ((b (-) c) (.) ((x (-) D90) (/) D90))
                      ELSE c (+) ((One (-) c) (.) (One (-) (x (/) D90))),
                   Tol11((RAbs(b) (+) RAbs(c)) (.) AtLeast1(x)))
         [] m = "effective_turn" -> JNum(r, a (/) (One (+) (c (.) b)), Tol11(a))
         [] m = "final_speed" -> JNum(r, (RAbs(a) (.) b (.) c) (/) (One (-) d), SclTol(a (.) b (.) c, d))
         [] m = "can_over_speed_max" ->
              LET lhs == RAbs(a) (.) b (.) c rhs == e (.) (One (-) d) IN
              JBool(r, Lt3(rhs, lhs, IF g THEN Z ELSE E12 (.) (RAbs(lhs) (+) RAbs(e))))
         [] m = "wind_effect" ->      \* speed, weight, force, direction, wind weight, wind rand, error
              LET w == Unit(Deg(A[4])) k == (a (.) c) (/) (b (.) e)
                  tol == Tol11(k) (+) (Tol11(k (.) f))
              IN JVec(r, VMul(w, k), tol)
                 \cup (IF Len(A) = 7 /\ A[7].t = "vec" THEN JXY(P[7], VMul(w, k (.) f), tol) ELSE Ok)
         [] m = "inertia_n_step_travel" ->
              JVec(r, Travel(A[1], N(2), c), SclTol(VSc(A[1]), c))
         [] m = "inertia_n_step_point" ->
              JVec(r, VAdd(A[1], Travel(A[2], N(3), d)), SclTol(VSc(A[2]) (+) VSc(A[1]), d))
         [] m = "inertia_n_step_distance" -> JNum(r, Travel(Vec(a, Z), N(2), c).x, SclTol(a, c))
         [] m = "inertia_final_travel" -> JVec(r, VMul(A[1], One (/) (One (-) b)), SclTol(VSc(A[1]), b))
         [] m = "inertia_final_point" ->
              JVec(r, VAdd(A[1], VMul(A[2], One (/) (One (-) c))), SclTol(VSc(A[1]) (+) VSc(A[2]), c))
         [] m = "inertia_final_distance" -> JNum(r, a (/) (One (-) b), SclTol(a, b))
         [] m = "calc_length_geom_series" ->      \* first term, sum, ratio
              LET t == One (+) ((b (.) (c (-) One)) (/) a) IN
              IF r.t # "num" THEN {"type"}
              ELSE IF \E x \in {a, b, c} : Near(x, SERVER_EPS, E12 (.) SERVER_EPS) THEN Unk
              ELSE IF a \preceq SERVER_EPS \/ RSgn(b) < 0 \/ c \preceq SERVER_EPS THEN C("refused", r.v = RInt(-1))
              ELSE IF b \preceq SERVER_EPS THEN C("zero", r.v = Z)
              ELSE IF Near(t, SERVER_EPS, E11 (.) AtLeast1(b (/) a)) THEN Unk
              ELSE IF t \prec SERVER_EPS THEN C("unreachable", r.v = RInt(-1))
              ELSE IF Near(c, One, E4) THEN Unk
              ELSE C("length", Near(r.v (.) Ln(c), Ln(t), E12 (.) ((One (+) (b (/) a)) (/) t) (+) (E10 (.) AtLeast1(RAbs(r.v)))))
         [] m = "calc_first_term_geom_series" ->  \* sum, ratio, length
              IF r.t # "num" THEN {"type"}
              ELSE C("sums-up", Near(GeomSum(r.v, b, N(3)), a,
                                     (E10 (.) AtLeast1(RAbs(a) (+) RAbs(GeomSum(RAbs(r.v), RAbs(b), N(3)))))
                                       (/) RMin(One, RAbs(One (-) b))))
         [] m = "r_int" -> IF r.t # "num" THEN {"type"} ELSE C("nearest", r.v = RInteger(a))
         [] m = "quantize" ->
              IF r.t # "num" THEN {"type"}
              ELSE IF (~g \/ ~DivExact(b)) /\ HalfWay(a (/) b, E10 (.) AtLeast1(a (/) b)) THEN Unk
              ELSE C("value", Near(r.v, Quant(a, b), Tol12(a)))
         [] m = "quantize_dist" -> JQuantDist(r, a, b)
         [] m = "unquantize_min" -> IF (~g \/ ~DivExact(b)) /\ HalfWay(a (/) b, E10 (.) AtLeast1(a (/) b)) THEN Unk
                                    ELSE JNum(r, UMin(a, b), Tol12(a))
         [] m = "unquantize_max" -> IF (~g \/ ~DivExact(b)) /\ HalfWay(a (/) b, E10 (.) AtLeast1(a (/) b)) THEN Unk
                                    ELSE JNum(r, UMax(a, b), Tol12(a))
         [] m = "unquantize_error" -> JUnquantError(r, a, b)
         [] m \in {"bound", "min_max"} -> IF c \prec a THEN Unk ELSE JNum(r, RMin(RMax(a, b), c), Z)
         [] m = "f_range1" -> JRange(r, Z, a, One, g)
         [] m = "f_range2" -> JRange(r, a, b, One, g)
         [] m = "f_range3" -> JRange(r, a, b, c, g)
         [] OTHER -> {"unknown-op"}
=============================================================================
