------------------------------- MODULE JLine -------------------------------
(***************************************************************************)
(* Line2D (the set { p : a x + b y + c = 0 }) and Ray2D (origin, direction)*)
(***************************************************************************)
EXTENDS Val

LMk(a, b, c) == [t |-> "line", a |-> a, b |-> b, c |-> c]
At(l, p)  == (l.a (.) p.x) (+) (l.b (.) p.y) (+) l.c
AtS(l, p) == RAbs(l.a (.) p.x) (+) RAbs(l.b (.) p.y) (+) RAbs(l.c)   \* magnitude of the terms
LNrm2(l) == Sq(l.a) (+) Sq(l.b)
LNrm(l) == RSqrt(LNrm2(l))
Normal(l) == Vec(l.a, l.b)
LineThrough(p, q) == LET a == p.y (-) q.y
                         b == q.x (-) p.x
                     IN LMk(a, b, RNeg((a (.) p.x) (+) (b (.) p.y)))

Proper(l) == LNrm2(l) # Z
\* p lies on l, up to rounding of the terms
On(l, p) == RAbs(At(l, p)) \preceq (E12 (.) AtS(l, p))
On2(l, p, q) == RAbs(At(l, p)) \preceq (E12 (.) (AtS(l, p) (+) AtS(l, q)))
\* l runs along the vector w
Along(l, w, tol) == RAbs(Dot(Normal(l), w)) \preceq (tol (.) LNrm(l) (.) Norm(w))

JThrough(r, p, q) == IF r.t # "line" THEN {"type"}
    ELSE C("proper", Proper(r)) \cup C("on1", On2(r, p, q)) \cup C("on2", On2(r, q, p))
         \cup C("along", Along(r, VSub(q, p), E12))
JPointDir(r, p, deg) == IF r.t # "line" THEN {"type"}
    ELSE C("proper", Proper(r)) \cup C("on", On(r, p)) \cup C("along", Along(r, Unit(deg), E12))

DetL(l, k)  == (l.a (.) k.b) (-) (l.b (.) k.a)
DetLS(l, k) == RAbs(l.a (.) k.b) (+) RAbs(l.b (.) k.a)
Meet(l, k)  == LET d == DetL(l, k)
               IN Vec(((l.b (.) k.c) (-) (k.b (.) l.c)) (/) d, ((k.a (.) l.c) (-) (l.a (.) k.c)) (/) d)
MeetTol(l, k) == LET d == RAbs(DetL(l, k))
                     n == RAbs(l.b (.) k.c) (+) RAbs(k.b (.) l.c) (+) RAbs(k.a (.) l.c) (+) RAbs(l.a (.) k.c)
                 IN E12 (+) (E12 (.) ((n (/) d) (+) ((VSc(Meet(l, k)) (.) DetLS(l, k)) (/) d)))
\* "parallel" in the library's sense
Parallel3(l, k) == Lt3(RAbs(DetL(l, k)), EPSILON, E12 (.) (E4 (+) DetLS(l, k)))

JMeet(r, l, k) ==
    LET p == Parallel3(l, k)
    IN IF p = "?" THEN Unk
       ELSE IF p = "T" THEN JInvalid(r)
       ELSE JVec(r, Meet(l, k), MeetTol(l, k))

Foot(l, p) == LET s == At(l, p) (/) LNrm2(l)
              IN Vec(p.x (-) (s (.) l.a), p.y (-) (s (.) l.b))

JLine(m, A, r, P, g) ==
    LET l == A[1]
        k == A[2]
        p == A[2]
    IN CASE m \in {"new", "newabc"} -> JSame(r, LMk(A[1].v, A[2].v, A[3].v))
         [] m \in {"newPP", "newpp"} -> IF Same(A[1], A[2]) THEN Unk ELSE JThrough(r, A[1], A[2])
         [] m \in {"newPA", "newpa"} -> JPointDir(r, A[1], Deg(A[2]))
         [] m \in {"newL", "newl", "copy"} -> JSame(r, l)
         [] m = "bad" -> JExc(r)
         [] m = "a" -> JNum(r, l.a, Z)
         [] m = "b" -> JNum(r, l.b, Z)
         [] m = "c" -> JNum(r, l.c, Z)
         [] m = "get_x" -> IF Near(RAbs(l.a), EPSILON, E12) THEN Unk ELSE IF RAbs(l.a) \prec EPSILON THEN JNum(r, Big20, Z)
                ELSE LET n == (l.b (.) k.v) (+) l.c
                     IN JNum(r, RNeg(n) (/) l.a,
                             E12 (+) ((E12 (.) (RAbs(l.b (.) k.v) (+) RAbs(l.c))) (/) RAbs(l.a)))
         [] m = "get_y" -> IF Near(RAbs(l.b), EPSILON, E12) THEN Unk ELSE IF RAbs(l.b) \prec EPSILON THEN JNum(r, Big20, Z)
                ELSE LET n == (l.a (.) k.v) (+) l.c
                     IN JNum(r, RNeg(n) (/) l.b,
                             E12 (+) ((E12 (.) (RAbs(l.a (.) k.v) (+) RAbs(l.c))) (/) RAbs(l.b)))
         [] m = "dist" -> IF ~Proper(l) THEN Unk
                ELSE JNum(r, RAbs(At(l, p)) (/) LNrm(l), E12 (+) ((E12 (.) AtS(l, p)) (/) LNrm(l)))
         [] m = "dist2" -> IF ~Proper(l) THEN Unk
                ELSE JNum(r, Sq(At(l, p)) (/) LNrm2(l), E12 (+) ((E12 (.) Sq(AtS(l, p))) (/) LNrm2(l)))
         [] m = "is_parallel" -> JBool(r, Parallel3(l, k))
         [] m \in {"intersection", "line_intersection"} -> JMeet(r, l, k)
         [] m = "perpendicular" -> IF r.t # "line" THEN {"type"}
                ELSE IF ~Proper(l) THEN Unk
                ELSE C("proper", Proper(r)) \cup C("on", On(r, p))
                     \cup C("orthogonal", RAbs(Dot(Normal(l), Normal(r)))
                                          \preceq (E12 (.) LNrm(l) (.) LNrm(r)))
         [] m = "projection" ->
                IF LNrm2(l) \prec (Two (.) EPSILON) THEN Unk
                ELSE JVec(r, Foot(l, p),
                          E12 (+) ((E11 (.) (AtS(l, p) (+) (VSc(p) (.) LNrm(l)))) (/) LNrm(l)))
         [] m = "angle_bisector" ->          \* (origin, left, right)
                LET x == Deg(A[2]) y == Deg(A[3]) IN
                IF r.t # "line" THEN {"type"}
                ELSE C("on", On(r, A[1])) \cup C("proper", Proper(r))
                     \cup LET h == (x (+) y) (/) Two IN
                          \* both halves of the bisecting direction and its perpendicular are
                          \* equidistant; the bisector is the one through the arcs' midpoints
                          C("bisects", Along(r, Unit(h), E11))
         [] m = "perpendicular_bisector" ->
                LET q == A[1] w == VSub(A[2], A[1]) mid == VMul(VAdd(A[1], A[2]), Half)
                    s == VSc(A[1]) (+) VSc(A[2]) IN
                IF r.t # "line" THEN {"type"}
                ELSE IF VSc(w) \prec (Two (.) EPSILON) THEN Unk
                ELSE C("proper", Proper(r))
                     \cup C("normal", RAbs(Cross(Normal(r), w)) \preceq (E12 (.) LNrm(r) (.) Norm(w)))
                     \* |At(mid)|/norm is the offset of the midpoint from the line
                     \cup C("midpoint", RAbs(At(r, mid)) \preceq
                              (LNrm(r) (.) (E12 (.) (s (+) (Sq(s) (/) Norm(w))))))
         [] m = "eq" ->
                LET S(u, v, x, y) == Lt3(RAbs((u (.) y) (-) (v (.) x)), EPSILON,
                                         E12 (.) (E4 (+) RAbs(u (.) y) (+) RAbs(v (.) x)))
                IN JBool(r, All3(<<S(l.a, l.b, k.a, k.b), S(l.a, l.c, k.a, k.c), S(l.b, l.c, k.b, k.c)>>))
         [] OTHER -> {"unknown-op"}

\* ------------------------------- rays ---------------------------------------
RayLine(y) == LET u == Unit(y.d)
              IN LMk(RNeg(u.y), u.x, (u.y (.) y.o.x) (-) (u.x (.) y.o.y))
\* signed distance along the ray
AlongRay(y, p) == Dot(VSub(p, y.o), Unit(y.d))
\* is p in front of the ray's origin?  undecided around the origin itself
Front3(y, p, tol) == Lt3(Z, AlongRay(y, p), (E5 (.) AtLeast1(VSc(p) (+) VSc(y.o))) (+) (RInt(1000) (.) tol))

\* direction of p from the origin deviates from the ray's by less than thr degrees
InDir3(y, p, thr) ==
    LET w == VSub(p, y.o) n == Norm(w)
    IN IF VSc(w) \prec (RInt(10) (.) EPSILON) THEN "?"
       ELSE IF thr \preceq Z THEN "F"
       ELSE IF thr \succ D180 THEN "T"
       ELSE Lt3(n (.) CosD(thr), Dot(w, Unit(y.d)), E9 (.) n)

\* o: magnitude of the coordinates the lines were derived from (their rounding moves the lines)
\* where rounding decides whether the point counts: when it is reported, it is this one
Maybe(r, x, tol) == IF r.t # "vec" THEN {"type"}
                    ELSE IF ~r.ok THEN Unk
                    ELSE LET bad == JVec(r, x, tol) IN IF bad = {} THEN Unk ELSE bad

JRayMeet(r, y, l, o, front(_, _)) ==
    LET k == RayLine(y)
        p == Lt3(RAbs(DetL(k, l)), EPSILON, E12 (.) (One (+) DetLS(k, l)))
        x == Meet(k, l)
        tol == (RInt(10) (.) MeetTol(k, l)) (+) ((E13 (.) RFrac(1, 10) (.) (o (+) VSc(x)) (.) LNrm(l)) (/) RAbs(DetL(k, l)))
    IN IF p = "?" THEN Unk
       ELSE IF p = "T" THEN JInvalid(r)
       ELSE LET f == front(x, tol)
            IN IF f = "?" THEN Maybe(r, x, tol) ELSE IF f = "F" THEN JInvalid(r) ELSE JVec(r, x, tol)

JRay(m, A, r, P, g) ==
    LET y == A[1]
        z == A[2]
    IN CASE m = "newA" -> IF r.t # "ray" THEN {"type"}
                          ELSE JSame(r.o, A[1]) \cup JAng([t |-> "ang", d |-> r.d], Deg(A[2]), E12 (+) (E13 (.) RAbs(Deg(A[2]))))
         [] m = "newV" -> LET w == VSub(A[2], A[1]) IN
                          IF r.t # "ray" THEN {"type"}
                          ELSE JSame(r.o, A[1]) \cup
                               (IF VSc(w) \prec (Two (.) EPSILON) THEN Unk
                                ELSE JDir([t |-> "ang", d |-> r.d], w,
                                          E12 (+) ((E12 (.) VSc(A[1])) (/) Norm(w))))
         [] m = "bad" -> JExc(r)
         [] m \in {"origin", "origin_"} -> JSame(r, y.o)
         [] m \in {"dir", "dir_"} -> JSame(r, [t |-> "ang", d |-> y.d])
         [] m = "copy" -> JSame(r, y)
         [] m = "line" -> JPointDir(r, y.o, y.d)
         [] m = "in_right_dir" -> JBool(r, InDir3(y, z, IF Len(A) >= 3 THEN A[3].v ELSE RInt(10)))
         [] m = "intersectionL" ->
                JRayMeet(r, y, z, VSc(y.o), LAMBDA x, tol : Front3(y, x, tol))
         [] m = "intersectionR" ->
                JRayMeet(r, y, RayLine(z), VSc(y.o) (+) VSc(z.o), LAMBDA x, tol : And3(Front3(y, x, tol), Front3(z, x, tol)))
         [] m = "eq" -> JBool(r, And3(Lt3(CircDist(y.d, z.d), EPSILON, E12), T3(Same(y.o, z.o))))
         [] OTHER -> {"unknown-op"}
=============================================================================
