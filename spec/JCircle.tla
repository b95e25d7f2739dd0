------------------------------ MODULE JCircle ------------------------------
(***************************************************************************)
(* Circle2D (open disk / its circumference) and Sector2D.                  *)
(***************************************************************************)
EXTENDS JTriangle, JAngle

CMk(c, r) == [t |-> "circ", c |-> c, r |-> r]

\* --- circumference and a line: the 0, 1 or 2 common points ------------------
ChordFoot(c, l) == Foot(l, c.c)
ChordH2(c, l) == Sq(c.r) (-) (Sq(At(l, c.c)) (/) LNrm2(l))
ChordPts(c, l) ==
    LET h == RSqrt(ChordH2(c, l)) n == LNrm(l) f == ChordFoot(c, l)
        u == Vec(RNeg(l.b) (/) n, l.a (/) n)
    IN <<VAdd(f, VMul(u, h)), VSub(f, VMul(u, h))>>
CSc(c, l) == AtLeast1(VSc(c.c) (+) c.r (+) (RAbs(l.c) (/) LNrm(l)))
\* flat lines amplify rounding: |b/a|
Amp(l) == IF RAbs(l.a) \prec EPSILON THEN One ELSE One (+) (RAbs(l.b) (/) RAbs(l.a))
\* lines the routine resolves well: not degenerate, not almost horizontal
Workable(l) == /\ RAbs(l.a) \succeq (Two (.) EPSILON) \/ RAbs(l.b) \succeq (Two (.) EPSILON)
               /\ RAbs(l.a) \preceq E12 \/ RAbs(l.a) \succeq (E4 (.) RAbs(l.b))
               /\ RAbs(l.a) \preceq E12 \/ RAbs(l.a) \succeq (Two (.) EPSILON)
ChordTol(c, l) == LET s == CSc(c, l) h == ChordH2(c, l) IN
                  (E11 (.) Amp(l) (.) s)
                  (+) (IF h \succ Z THEN (E12 (.) Amp(l) (.) Sq(s)) (/) RSqrt(h) ELSE Z)

\* expected common points: <<"T", pts>> certain, or <<"?">>
ChordSet(c, l, g) ==
    LET h == ChordH2(c, l) s == CSc(c, l) m == E5 (+) (E11 (.) Sq(s))
    IN IF ~Workable(l) THEN <<"?">>
       ELSE IF h \succ m THEN <<"T", ChordPts(c, l)>>
       ELSE IF h \prec RNeg(m) THEN <<"T", <<>> >>
       ELSE IF g /\ h = Z /\ Amp(l) \preceq RInt(20) /\ s \preceq RInt(200) THEN <<"T", <<ChordFoot(c, l)>> >>
       ELSE <<"?">>
\* what holds where rounding decides: a subset of the common points with all the clear ones
RoughChord(pts, want, k(_), tol) ==
    LET ok == \A j \in 1..Len(pts) : pts[j].t = "vec" /\ pts[j].ok
        bad == C("count", Len(pts) <= Len(want))
               \cup C("points", ok /\ \A j \in 1..Len(pts) : \E i \in 1..Len(want) : k(want[i]) # "F" /\ PtNear(pts[j], want[i], tol))
               \cup C("missing", \A i \in 1..Len(want) : k(want[i]) = "T" => \E j \in 1..Len(pts) : PtNear(pts[j], want[i], tol))
    IN IF bad = {} THEN Unk ELSE bad
\* ... and near a tangent: only points of both
RoughTangent(pts, c, l, k(_)) ==
    LET s == CSc(c, l)
        m == (E4 (+) (E9 (.) Sq(s))) (.) Sq(Amp(l))
        bad == C("count", Len(pts) <= 2)
               \cup C("points", \A j \in 1..Len(pts) :
                        LET x == pts[j] IN
                        /\ x.t = "vec" /\ x.ok
                        /\ RAbs(At(l, x)) \preceq (E6 (.) s (.) Amp(l) (.) LNrm(l))
                        /\ RAbs(D2(x, c.c) (-) Sq(c.r)) \preceq m
                        /\ k(x) # "F")
    IN IF ~Workable(l) \/ bad = {} THEN Unk ELSE bad
JChord(r, c, l, g, keep(_, _)) ==
    IF r.t # "list" THEN {"type"}
    ELSE LET e == ChordSet(c, l, g)
         IN IF e[1] = "?" THEN RoughTangent(r.v, c, l, LAMBDA x : keep(x, E3))
            ELSE LET tol == ChordTol(c, l)
                     k(x) == keep(x, tol)
                 IN IF \E i \in 1..Len(e[2]) : k(e[2][i]) = "?" THEN RoughChord(r.v, e[2], k, tol)
                    ELSE JPointSet(r.v, Keep(e[2], k), tol (+) (IF Len(e[2]) = 1 THEN E7 ELSE Z))

\* --- two circles ------------------------------------------------------------
RadicalAxis(c, d) == LET w == VSub(d.c, c.c)
                     IN LMk(RInt(-2) (.) w.x, RInt(-2) (.) w.y,
                            (N2(d.c) (-) Sq(d.r)) (-) (N2(c.c) (-) Sq(c.r)))
JCircles(r, c, d, g) ==
    LET q == D2(c.c, d.c)
        s == c.r (+) d.r
        f == RAbs(c.r (-) d.r)
        e == RSqrt(q)
        exactD == Sq(e) = q
        touch == g /\ exactD /\ (e = s \/ e = f)
        m == E6 (.) AtLeast1(VSc(c.c) (+) VSc(d.c) (+) s)
    IN IF r.t # "list" THEN {"type"}
       ELSE IF q = Z THEN (IF f \succ m THEN C("count", Len(r.v) = 0) ELSE Unk)
       ELSE IF e \succ (s (+) m) \/ e \prec (f (-) m) THEN C("count", Len(r.v) = 0)
       ELSE IF touch \/ (e \prec (s (-) m) /\ e \succ (f (+) m))
            THEN JChord(r, c, RadicalAxis(c, d), g, LAMBDA x, tol : "T")
       ELSE Unk

CircumContains3(p, k) ==
    LET z == Circumcentre(k)
        d == D2(z, k.a) (-) D2(z, p)
        s == Sq(VSc(z) (+) TSc(k) (+) VSc(p))
    IN Pos3(d, (E10 (.) AtLeast1(s)) (+) (RInt(4) (.) (Dist(z, k.a) (+) One) (.) CTol(k)))

JCircle(m, A, r, P, g) ==
    LET c == A[1]
        o == A[2]
        Rad0(x) == RMax(Z, x)
        Def == Len(A) = 0
    IN CASE m = "new0" -> JSame(r, CMk(Vec(Z, Z), Z))
         [] m = "new" -> IF r.t # "circ" THEN {"type"}
                         ELSE JSame(r.c, A[1]) \cup C("radius", r.r = Rad0(A[2].v))
         [] m = "assign" -> JSame(P[1].c, A[2]) \cup C("radius", P[1].r = Rad0(A[3].v))
         [] m \in {"center", "center_"} -> JSame(r, c.c)
         [] m = "radius" -> JNum(r, c.r, Z)
         [] m = "area" -> JNum(r, PI (.) Sq(c.r), Rel12(RInt(4) (.) Sq(c.r)))
         [] m = "contains" -> JBool(r, Lt3(D2(c.c, o), Sq(c.r),
                                  IF g THEN Z ELSE Rel12(Sq(VSc(c.c) (+) VSc(o) (+) c.r))))
         [] m \in {"intersectionL", "intersection_with_line"} ->
                IF ~Proper(o) THEN Unk ELSE JChord(r, c, o, g, LAMBDA x, tol : "T")
         [] m \in {"intersectionR", "intersection_with_ray"} ->
                JChord(r, c, RayLine(o), FALSE, LAMBDA x, tol : Front3(o, x, tol))
         [] m \in {"intersectionS", "intersection_with_segment"} ->
                IF Degenerate(o) THEN Unk
                ELSE JChord(r, c, SegLine(o), g,
                            LAMBDA x, tol : Along3(o, x, tol (+) E7))
         [] m \in {"intersectionC", "intersection_with_circle"} -> JCircles(r, c, o, g)
         [] m = "circum_circle" ->
                LET k == TMk(A[1], A[2], A[3]) d == RAbs(TArea2(k)) IN
                IF r.t # "circ" THEN {"type"}
                ELSE IF g /\ d = Z /\ AllDistinct(k) THEN JVec(r.c, Vec(Z, Z), Z) \cup C("radius", r.r = Z)
                ELSE IF d \prec E8 \/ ~Spread(k) THEN Unk
                ELSE JVec(r.c, Circumcentre(k), CTol(k))
                     \cup C("radius", Near(r.r, Dist(Circumcentre(k), k.a), Two (.) CTol(k)))
         [] m = "circum_circle_contains" ->
                LET k == TMk(A[2], A[3], A[4]) d == RAbs(TArea2(k)) IN
                IF g /\ d = Z /\ AllDistinct(k) THEN JBool(r, "F")
                ELSE IF d \prec E8 \/ ~Spread(k) THEN Unk
                ELSE JBool(r, CircumContains3(A[1], k))
         [] m = "quadratic_f" ->          \* roots of a x^2 + b x + c
                LET a == A[1].v b == A[2].v q == A[3].v
                    d == Sq(b) (-) (RInt(4) (.) a (.) q)
                    h == RSqrt(RMax(d, Z))
                    x1 == (h (-) b) (/) (Two (.) a)
                    x2 == (RNeg(h) (-) b) (/) (Two (.) a)
                    nz == E11 (.) AtLeast1(Sq(b) (+) RAbs(a (.) q))
                    tol == (Tol11(x1) (+) Tol11(x2)) (+) (nz (/) (RAbs(a) (.) RMax(h, E3)))
                IN IF r.t # "list" THEN (IF a = Z THEN JExc(r) ELSE {"type"})
                   ELSE IF a = Z THEN {"exception"}
                   ELSE IF Near(RAbs(d), EPSILON, nz) THEN Unk
                   ELSE IF RAbs(d) \prec EPSILON
                        THEN C("count", Len(r.v) = 2)
                             \cup C("double", \A i \in 1..Len(r.v) : r.v[i].t = "num"
                                     /\ Near(r.v[i].v, RNeg(b) (/) (Two (.) a), Tol11(b (/) a)))
                   ELSE IF RSgn(d) < 0 THEN C("count", Len(r.v) = 0)
                   ELSE C("count", Len(r.v) = 2)
                        \cup C("roots", Len(r.v) = 2 =>
                             /\ r.v[1].t = "num" /\ r.v[2].t = "num"
                             /\ \/ Near(r.v[1].v, x1, tol) /\ Near(r.v[2].v, x2, tol)
                                \/ Near(r.v[1].v, x2, tol) /\ Near(r.v[2].v, x1, tol))
         [] OTHER -> {"unknown-op"}

\* ------------------------------ sectors ---------------------------------------
SecArc(s) == Mod360(s.e (-) s.s)
\* is direction w inside the arc from start counter-clockwise to end?
OnAxis(w) == w.x = Z \/ w.y = Z
AxisDeg(w) == IF w.y = Z THEN (IF RSgn(w.x) > 0 THEN Z ELSE D180)
              ELSE IF RSgn(w.y) > 0 THEN D90 ELSE RNeg(D90)
InArc3(s, w) ==
    LET a == SecArc(s) u == Unit(s.s) v == Unit(s.e) m == E9 (.) Norm(w)
        cu == Cross(u, w) cv == Cross(w, v)
    IN IF s.s = s.e            \* a single direction
            THEN IF RAbs(cu) \succ m \/ RSgn(Dot(u, w)) < 0 THEN "F" ELSE "?"
       ELSE IF a \prec E6 \/ a \succ (D360 (-) E6) THEN "?"
       ELSE IF RAbs(cu) \preceq m \/ RAbs(cv) \preceq m
            THEN \* on the carrier line of one of the two rays: decided on the axes only
                 IF OnAxis(w) THEN Within3(s.s, AxisDeg(w), s.e, Z) ELSE "?"
       ELSE IF a \preceq D180 THEN T3(RSgn(cu) > 0 /\ RSgn(cv) > 0)
       ELSE T3(~(RSgn(cu) < 0 /\ RSgn(cv) < 0))

JSector(m, A, r, P, g) ==
    LET s == A[1]
        arc == SecArc(s)
        odd == s.s # s.e /\ (arc \prec E9 \/ arc \succ (D360 (-) E9))     \* almost empty or full turn: left open
        Is(v, c, r0, r1, a, b) ==
            IF v.t # "sect" THEN {"type"}
            ELSE JSame(v.c, c)
                 \cup (IF r1 \prec Z THEN Unk
                       ELSE C("rmin", v.r0 = RMax(Z, r0)) \cup C("rmax", v.r1 = RMax(r0, r1)))
                 \cup JAng([t |-> "ang", d |-> v.s], a, E12 (+) (E13 (.) RAbs(a)))
                 \cup JAng([t |-> "ang", d |-> v.e], b, E12 (+) (E13 (.) RAbs(b)))
    IN CASE m = "new" -> Is(r, A[1], A[2].v, A[3].v, Deg(A[4]), Deg(A[5]))
         [] m = "assign" -> Is(P[1], A[2], A[3].v, A[4].v, Deg(A[5]), Deg(A[6]))
         [] m \in {"center", "center_"} -> JSame(r, s.c)
         [] m = "radius_min" -> JNum(r, s.r0, Z)
         [] m = "radius_max" -> JNum(r, s.r1, Z)
         [] m \in {"angle_left_start", "angle_left_start_"} -> JSame(r, [t |-> "ang", d |-> s.s])
         [] m \in {"angle_right_end", "angle_right_end_"} -> JSame(r, [t |-> "ang", d |-> s.e])
         [] m = "area" -> IF odd THEN Unk
                ELSE JNum(r, (PI (.) (Sq(s.r1) (-) Sq(s.r0)) (.) arc) (/) D360, Rel11(Sq(s.r1)))
         [] m = "get_circumference_min" -> IF odd THEN Unk
                ELSE JNum(r, (Two (.) PI (.) s.r0 (.) arc) (/) D360, Rel11(s.r0))
         [] m = "get_circumference_max" -> IF odd THEN Unk
                ELSE JNum(r, (Two (.) PI (.) s.r1 (.) arc) (/) D360, Rel11(s.r1))
         [] m = "contains" ->
                LET w == VSub(A[2], s.c)
                    q == N2(w)
                    mg == IF g THEN Z ELSE Rel11(Sq(VSc(A[2]) (+) VSc(s.c) (+) s.r1))
                    ring == And3(Le3(Sq(s.r0), q, mg), Le3(q, Sq(s.r1), mg))
                IN IF ring = "F" THEN JBool(r, "F")
                   ELSE IF VSc(w) \prec (RInt(10) (.) EPSILON) THEN Unk
                   ELSE JBool(r, And3(ring, InArc3(s, w)))
         [] m = "eq" ->
                LET o == A[2]
                    N(x, y) == Lt3(RAbs(x (-) y), EPSILON, E12)
                    Wrap(x, y) == CircDist(x, y) \prec (Two (.) EPSILON) /\ ~Near(x, y, One)
                IN IF Wrap(s.s, o.s) \/ Wrap(s.e, o.e) THEN Unk
                   ELSE JBool(r, All3(<<N(s.c.x, o.c.x), N(s.c.y, o.c.y), N(s.s, o.s), N(s.e, o.e),
                                        N(s.r0, o.r0), N(s.r1, o.r1)>>))
         [] OTHER -> {"unknown-op"}
=============================================================================
