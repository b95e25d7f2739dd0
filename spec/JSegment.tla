------------------------------ MODULE JSegment ------------------------------
(***************************************************************************)
(* Segment2D: the closed point set between origin o and terminal e.        *)
(***************************************************************************)
EXTENDS JLine

SMk(o, e) == [t |-> "seg", o |-> o, e |-> e]
SegLine(s) == LineThrough(s.o, s.e)
SSc(s) == RMax(VSc(s.o), VSc(s.e))
Degenerate(s) == Same(s.o, s.e)

\* nearest point of the segment to p
Nearest(s, p) ==
    LET w == VSub(s.e, s.o)
        k == Dot(w, VSub(p, s.o))
        n == N2(w)
    IN IF n = Z \/ RSgn(k) <= 0 THEN s.o
       ELSE IF k \succeq n THEN s.e
       ELSE VAdd(s.o, VMul(w, k (/) n))
SegDist(s, p) == Dist(p, Nearest(s, p))

\* exact membership and exact common points of two segments
OnSeg(s, p) == /\ Area2(s.o, s.e, p) = Z
               /\ RSgn((p.x (-) s.o.x) (.) (p.x (-) s.e.x)) <= 0
               /\ RSgn((p.y (-) s.o.y) (.) (p.y (-) s.e.y)) <= 0
Sides(s, u) == <<RSgn(Area2(s.o, s.e, u.o)), RSgn(Area2(s.o, s.e, u.e))>>
ProperCross(s, u) == /\ LET k == Sides(s, u) IN k[1] * k[2] < 0
                     /\ LET k == Sides(u, s) IN k[1] * k[2] < 0
Touch(s, u) == OnSeg(s, u.o) \/ OnSeg(s, u.e) \/ OnSeg(u, s.o) \/ OnSeg(u, s.e)
Common(s, u) == ProperCross(s, u) \/ Touch(s, u)

\* sign of the area of (s.o, s.e, p) is certain
Sure(s, p) == RAbs(Area2(s.o, s.e, p)) \succ (Rel11(Sq(SSc(s) (+) VSc(p))))
SureBoth(s, u) == Sure(s, u.o) /\ Sure(s, u.e) /\ Sure(u, s.o) /\ Sure(u, s.e)
\* some supporting line separates the two for certain
Separated(s, u) ==
    \/ Sure(s, u.o) /\ Sure(s, u.e) /\ (LET k == Sides(s, u) IN k[1] * k[2] > 0)
    \/ Sure(u, s.o) /\ Sure(u, s.e) /\ (LET k == Sides(u, s) IN k[1] * k[2] > 0)
\* nothing in common, whatever rounding does to the sides: clearly disjoint boxes
Lo(x, y) == RMin(x, y)
Hi(x, y) == RMax(x, y)
Apart(s, u) ==
    LET m == E9 (.) AtLeast1(SSc(s) (+) SSc(u))
    IN \/ (Hi(s.o.x, s.e.x) (+) m) \prec Lo(u.o.x, u.e.x) \/ (Hi(u.o.x, u.e.x) (+) m) \prec Lo(s.o.x, s.e.x)
       \/ (Hi(s.o.y, s.e.y) (+) m) \prec Lo(u.o.y, u.e.y) \/ (Hi(u.o.y, u.e.y) (+) m) \prec Lo(s.o.y, s.e.y)
Common3(s, u, g) == IF g THEN T3(Common(s, u))
                    ELSE IF Separated(s, u) \/ Apart(s, u) THEN "F"
                    ELSE IF SureBoth(s, u) THEN T3(ProperCross(s, u)) ELSE "?"
Proper3(s, u, g) == IF g THEN T3(ProperCross(s, u))
                    ELSE IF Separated(s, u) \/ Apart(s, u) THEN "F"
                    ELSE IF SureBoth(s, u) THEN T3(ProperCross(s, u)) ELSE "?"

\* within the box spanned by the segment, up to CALC_ERROR in the products
Box3(s, p, g) ==
    LET K(u, v, w) == LET d == (u (-) v) (.) (u (-) w)
                      IN IF d \preceq (IF g THEN Z ELSE RNeg(E13)) THEN "T"
                         ELSE IF d \prec (CALC_ERROR (+) E11) /\ ~(d \prec (CALC_ERROR (-) E11)) THEN "?"
                         ELSE T3(d \prec CALC_ERROR)
    IN And3(K(p.x, s.o.x, s.e.x), K(p.y, s.o.y, s.e.y))

\* p (known to lie on the supporting line up to tol) belongs to the segment
Along3(s, p, tol) ==
    LET w == VSub(s.e, s.o)
        n == Norm(w)
        k == Dot(w, VSub(p, s.o)) (/) n
        m == ((RInt(4) (.) E9) (/) n) (+) (E6 (.) AtLeast1(n)) (+) (RInt(10) (.) tol)
    IN \* the library accepts a slack of CALC_ERROR in the coordinate products
       IF k \prec Z THEN (IF k \prec RNeg(m) THEN "F" ELSE "?")
       ELSE IF k \succ n THEN (IF k \succ (n (+) m) THEN "F" ELSE "?")
       \* close to an end, rounding of p may use that slack up
       ELSE IF (RInt(100) (.) tol (.) n) \preceq CALC_ERROR THEN "T"
       ELSE IF k \succeq (RInt(10) (.) tol) /\ k \preceq (n (-) (RInt(10) (.) tol)) THEN "T" ELSE "?"
\* exact inputs: inside or outside by a visible amount
AlongExact3(s, p) ==
    LET w == VSub(s.e, s.o)
        k == Dot(w, VSub(p, s.o)) (/) N2(w)
    IN IF Z \preceq k /\ k \preceq One THEN "T"
       ELSE IF k \prec RNeg(E4) \/ k \succ (One (+) E4) THEN "F" ELSE "?"

\* segment and line: single common point of non-parallel ones
JSegLine(r, s, l, g) ==
    LET k == SegLine(s)
        p == Parallel3(k, l)
        x == Meet(k, l)
        tol == MeetTol(k, l)
    IN IF p = "?" THEN Unk
       ELSE IF p = "T" THEN JInvalid(r)
       ELSE LET f == IF g THEN AlongExact3(s, x) ELSE Along3(s, x, tol)
            IN IF f = "?" THEN Maybe(r, x, tol) ELSE IF f = "F" THEN JInvalid(r) ELSE JVec(r, x, tol)

JSegSeg(r, s, u, endpoints, g) ==
    LET k == SegLine(s)
        l == SegLine(u)
        p == Parallel3(k, l)
        x == Meet(k, l)
        tol == MeetTol(k, l)
    IN IF p = "?" THEN Unk
       ELSE IF p = "T" THEN JInvalid(r)
       ELSE LET f == IF g THEN And3(AlongExact3(s, x), AlongExact3(u, x))
                     ELSE And3(Along3(s, x, tol), Along3(u, x, tol))
                f2 == IF endpoints THEN f ELSE And3(f, Proper3(s, u, g))
            IN IF f2 = "?" THEN Maybe(r, x, tol) ELSE IF f2 = "F" THEN JInvalid(r) ELSE JVec(r, x, tol)

JProjection(r, s, p, g) ==
    LET w == VSub(s.e, s.o)
        n == Norm(w)
        k == Dot(w, VSub(p, s.o)) (/) n
        sc == SSc(s) (+) VSc(p)
        m == IF g THEN E9 ELSE Tol10(sc)
        in == And3(Lt3(RNeg(EPSILON), k, m), Lt3(k, n (+) EPSILON, m))
    IN IF n \prec (EPSILON (-) E9) THEN JVec(r, s.o, E9)
       ELSE IF n \prec (EPSILON (+) E9) THEN Unk
       ELSE IF in = "?" THEN Maybe(r, VAdd(s.o, VMul(w, k (/) n)), Tol11(sc))
       ELSE IF in = "F" THEN JInvalid(r)
       ELSE JVec(r, VAdd(s.o, VMul(w, k (/) n)), Tol11(sc))

JOnWeak(r, s, p, g) ==
    LET w == VSub(s.e, s.o)
        n == Norm(w)
        k == Dot(w, VSub(p, s.o)) (/) n
        q == VAdd(s.o, VMul(w, k (/) n))
        m == Tol11(SSc(s) (+) VSc(p))
        wk(z) == And3(Lt3(RAbs(p.x (-) z.x), EPSILON, m), Lt3(RAbs(p.y (-) z.y), EPSILON, m))
    IN IF Near(n, EPSILON, E9) THEN Unk
       ELSE IF n \prec EPSILON THEN JBool(r, wk(s.o))
       ELSE JBool(r, All3(<<Lt3(RNeg(EPSILON), k, m), Lt3(k, n (+) EPSILON, m), wk(q)>>))

DistTol(s, p) == LET n == Dist(s.o, s.e) sc == SSc(s) (+) VSc(p)
                 IN Tol11(sc) (+) (IF n = Z THEN Z ELSE (E12 (.) Sq(sc)) (/) n)
Min4(a, b, c, d) == RMin(RMin(a, b), RMin(c, d))
SegSegDist(s, u) == IF Common(s, u) THEN Z
                    ELSE Min4(SegDist(s, u.o), SegDist(s, u.e), SegDist(u, s.o), SegDist(u, s.e))

JSegment(m, A, r, P, g) ==
    LET s == A[1]
        u == A[2]
        p == A[2]
        Made(v, o, e, tol) == IF v.t # "seg" THEN {"type"}
                              ELSE JXY(v.o, o, tol) \cup JXY(v.e, e, tol)
        EndTol(o, len, deg) == (E12 (+) (E13 (.) RAbs(deg))) (.) AtLeast1(VSc(o) (+) RAbs(len))
    IN CASE m = "new0" -> Made(r, Vec(Z, Z), Vec(Z, Z), Z)
         [] m = "newPP" -> JSame(r, SMk(A[1], A[2]))
         [] m = "newPLA" -> Made(r, A[1], VAdd(A[1], VMul(Unit(Deg(A[3])), A[2].v)),
                                 EndTol(A[1], A[2].v, Deg(A[3])))
         [] m = "new4" -> JSame(r, SMk(Vec(A[1].v, A[2].v), Vec(A[3].v, A[4].v)))
         [] m = "bad" -> JExc(r)
         [] m = "assign0" -> Made(P[1], Vec(Z, Z), Vec(Z, Z), Z)
         [] m = "assignPP" -> JSame(P[1], SMk(A[2], A[3]))
         [] m = "assignPLA" -> Made(P[1], A[2], VAdd(A[2], VMul(Unit(Deg(A[4])), A[3].v)),
                                    EndTol(A[2], A[3].v, Deg(A[4])))
         [] m = "assign4" -> JSame(P[1], SMk(Vec(A[2].v, A[3].v), Vec(A[4].v, A[5].v)))
         [] m = "is_valid" ->
                JBool(r, Not3(And3(Lt3(RAbs(s.o.x (-) s.e.x), EPSILON, E13 (.) E3),
                                   Lt3(RAbs(s.o.y (-) s.e.y), EPSILON, E13 (.) E3))))
         [] m \in {"origin", "origin_"} -> JSame(r, s.o)
         [] m \in {"terminal", "terminal_"} -> JSame(r, s.e)
         [] m = "copy" -> JSame(r, s)
         [] m = "length" -> JNum(r, Dist(s.o, s.e), Rel12(SSc(s)))
         [] m = "line" -> IF Degenerate(s) THEN JType(r, "line") ELSE JThrough(r, s.o, s.e)
         [] m = "direction" ->
                LET w == VSub(s.e, s.o) IN
                IF VSc(w) \prec (Two (.) EPSILON) THEN Unk
                ELSE JDir(r, w, E12 (+) ((E12 (.) SSc(s)) (/) Norm(w)))
         [] m \in {"swap", "reverse"} -> JSame(P[1], SMk(s.e, s.o)) \cup JSame(r, P[1])
         [] m = "reversed_segment" -> JSame(r, SMk(s.e, s.o))
         [] m = "perpendicular_bisector" ->
                JLine("perpendicular_bisector", <<s.o, s.e>>, r, <<s.o, s.e>>, g)
         [] m = "contains" -> JBool(r, Box3(s, p, g))
         [] m = "eq" -> JBool(r, T3(Same(s.o, u.o) /\ Same(s.e, u.e)))
         [] m = "equals_weakly" ->
                LET W(x, y) == Lt3(RAbs(x (-) y), EPSILON, E13 (.) E3)
                IN JBool(r, All3(<<W(s.o.x, u.o.x), W(s.o.y, u.o.y), W(s.e.x, u.e.x), W(s.e.y, u.e.y)>>))
         [] m = "nearest_point" -> JVec(r, Nearest(s, p), Rel11(SSc(s) (+) VSc(p)))
         [] m = "distP" -> JNum(r, SegDist(s, p), DistTol(s, p))
         [] m = "distS" -> JNum(r, SegSegDist(s, u),
                                RMax(RMax(DistTol(s, u.o), DistTol(s, u.e)), RMax(DistTol(u, s.o), DistTol(u, s.e))))
         [] m = "farthest_dist" -> JNum(r, RMax(Dist(s.o, p), Dist(s.e, p)), Rel11(SSc(s) (+) VSc(p)))
         [] m = "projection" -> JProjection(r, s, p, g)
         [] m = "on_segment" -> JBool(r, IF g THEN T3(OnSeg(s, p))
                                         ELSE IF SegDist(s, p) \succ (E8 (.) AtLeast1(SSc(s))) /\ Sure(s, p)
                                         THEN "F" ELSE "?")
         [] m = "on_segment_weakly" -> JOnWeak(r, s, p, g)
         [] m = "check_intersects_on_line" ->      \* for points of the supporting line
                IF g /\ Area2(s.o, s.e, p) = Z /\ ~Degenerate(s) THEN JBool(r, T3(OnSeg(s, p))) ELSE Unk
         [] m = "exist_intersectionS" -> JBool(r, Common3(s, u, g))
         [] m \in {"exist_intersection_except_endpoint", "intersects_except_endpoint"} ->
                JBool(r, Proper3(s, u, g))
         [] m = "exist_intersectionL" ->
                LET a == At(u, s.o) b == At(u, s.e)
                    ma == IF g THEN Z ELSE E12 (.) AtS(u, s.o)
                    mb == IF g THEN Z ELSE E12 (.) AtS(u, s.e)
                IN IF (RAbs(a) \preceq ma \/ RAbs(b) \preceq mb) /\ ~g THEN Unk
                   ELSE JBool(r, T3(RSgn(a) * RSgn(b) <= 0))
         [] m = "intersectionL" -> IF Degenerate(s) THEN JInvalid(r) ELSE JSegLine(r, s, u, g)
         [] m = "intersectionS" -> IF Degenerate(s) \/ Degenerate(u) THEN JInvalid(r)
                                   ELSE JSegSeg(r, s, u, Len(A) = 3 /\ A[3].v = TRUE, g)
         [] OTHER -> {"unknown-op"}
=============================================================================
