------------------------------ MODULE JPolygon ------------------------------
(***************************************************************************)
(* Polygon2D (cyclic vertex sequence, even-odd interior), clipping by a    *)
(* rectangle, and ConvexHull.                                              *)
(***************************************************************************)
EXTENDS JRect

PolyMk(v) == [t |-> "poly", v |-> v]
RECURSIVE PSc(_)
PSc(v) == IF v = <<>> THEN Z ELSE RMax(VSc(Head(v)), PSc(Tail(v)))
PEdge(v, i) == SMk(v[i], v[Nxt(i, Len(v))])

\* --- containment ------------------------------------------------------------
OnBoundary(v, p) == \E i \in 1..Len(v) : OnSeg(PEdge(v, i), p)
\* crossings of the half line from p towards +x, each edge half-open in y
CrossesRight(p, a, b) ==
    /\ (RLe(a.y, p.y) /\ RLt(p.y, b.y)) \/ (RLe(b.y, p.y) /\ RLt(p.y, a.y))
    /\ LET k == Area2(a, b, p) IN IF RLt(a.y, b.y) THEN RSgn(k) > 0 ELSE RSgn(k) < 0
Odd(v, p) == Cardinality({i \in 1..Len(v) : CrossesRight(p, v[i], v[Nxt(i, Len(v))])}) % 2 = 1
FarFromBoundary(v, p) == \A i \in 1..Len(v) :
                            SegDist(PEdge(v, i), p) \succ (E7 (.) AtLeast1(PSc(v) (+) VSc(p)))
Contains3(v, p, onOk, g) ==
    IF Len(v) = 0 THEN "F"
    ELSE IF Len(v) = 1 THEN T3(onOk /\ Same(v[1], p))
    ELSE IF g THEN (IF OnBoundary(v, p) THEN T3(onOk) ELSE T3(Odd(v, p)))
    ELSE IF FarFromBoundary(v, p) THEN T3(Odd(v, p)) ELSE "?"

\* --- distance, area, box ------------------------------------------------------
RECURSIVE EdgeDist(_, _, _)
EdgeDist(v, p, i) == LET d == SegDist(PEdge(v, i), p)
                     IN IF i = 1 THEN d ELSE RMin(d, EdgeDist(v, p, i - 1))
OutlineDist(v, p) == IF Len(v) = 1 THEN Dist(v[1], p) ELSE EdgeDist(v, p, Len(v))
RECURSIVE PDTol(_, _, _)
PDTol(v, p, i) == LET d == DistTol(PEdge(v, i), p) IN IF i = 1 THEN d ELSE RMax(d, PDTol(v, p, i - 1))

RECURSIVE Shoelace(_, _)
Shoelace(v, i) == IF i = 0 THEN Z ELSE Cross(v[i], v[Nxt(i, Len(v))]) (+) Shoelace(v, i - 1)
PArea2(v) == IF Len(v) < 3 THEN Z ELSE Shoelace(v, Len(v))
PATol(v) == Rel12(RInt(2 * Len(v) + 1) (.) Sq(PSc(v)))

RECURSIVE MinX(_), MaxX(_), MinY(_), MaxY(_)
MinX(v) == IF Len(v) = 1 THEN v[1].x ELSE RMin(v[1].x, MinX(Tail(v)))
MaxX(v) == IF Len(v) = 1 THEN v[1].x ELSE RMax(v[1].x, MaxX(Tail(v)))
MinY(v) == IF Len(v) = 1 THEN v[1].y ELSE RMin(v[1].y, MinY(Tail(v)))
MaxY(v) == IF Len(v) = 1 THEN v[1].y ELSE RMax(v[1].y, MaxY(Tail(v)))

\* --- clipping: the polygon's part inside the rectangle, side by side ----------
\* half planes: axis "x"/"y", bound k, keep <= k (le) or >= k
HIn(p, ax, k, le) == LET c == IF ax = "x" THEN p.x ELSE p.y IN IF le THEN RLe(c, k) ELSE RGe(c, k)
\* the point of the line through p, q on which coordinate ax equals k
HCut(p, q, ax, k) ==
    IF ax = "x" THEN Vec(k, p.y (+) (((k (-) p.x) (.) (q.y (-) p.y)) (/) (q.x (-) p.x)))
    ELSE Vec(p.x (+) (((k (-) p.y) (.) (q.x (-) p.x)) (/) (q.y (-) p.y)), k)
\* k decides membership; cutting happens at kc (kc = k in the intended algorithm)
RECURSIVE HClipFrom(_, _, _, _, _, _)
HClipFrom(v, ax, k, kc, le, i) ==
    IF i > Len(v) THEN <<>>
    ELSE LET p == v[i] q == v[Nxt(i, Len(v))]
             a == HIn(p, ax, k, le) b == HIn(q, ax, k, le)
         IN (IF a /\ b THEN <<q>>
             ELSE IF a THEN <<HCut(p, q, ax, kc)>>
             ELSE IF b THEN <<HCut(p, q, ax, kc), q>>
             ELSE <<>>) \o HClipFrom(v, ax, k, kc, le, i + 1)
HClip(v, ax, k, kc, le) == TLCEval(HClipFrom(v, ax, k, kc, le, 1))
ClipBy(v, b, bottomCut) ==
    HClip(HClip(HClip(HClip(v, "x", b.x1, b.x1, TRUE), "y", b.y1, bottomCut, TRUE),
                "x", b.x0, b.x0, FALSE), "y", b.y0, b.y0, FALSE)
Clip(v, b) == ClipBy(v, b, b.y1)
\* KNOWN DEVIATION (finding K1): edges crossing the bottom side are cut at the
\* height of the top side instead.
ClipDeviating(v, b) == ClipBy(v, b, b.y0)

\* drop consecutive (cyclic) repetitions
RECURSIVE Squeeze(_, _, _)
Squeeze(v, tol, i) ==
    IF i > Len(v) THEN <<>>
    ELSE LET p == v[i] q == v[Nxt(i, Len(v))]
         IN (IF Len(v) > 1 /\ Near(p.x, q.x, tol) /\ Near(p.y, q.y, tol) THEN <<>> ELSE <<p>>)
            \o Squeeze(v, tol, i + 1)
\* same cyclic sequence of corners
SameCycle(u, v, tol) ==
    LET a == TLCEval(Squeeze(u, tol, 1)) b == TLCEval(Squeeze(v, tol, 1)) n == Len(a)
    IN /\ Len(b) = n
       /\ \/ n = 0
          \/ \E s \in 0..(n - 1) : \A i \in 1..n :
                LET j == ((i + s - 1) % n) + 1
                IN Near(a[i].x, b[j].x, tol) /\ Near(a[i].y, b[j].y, tol)
\* u, read from some corner on, is v with corners left out
RECURSIVE Greedy(_, _, _)
Greedy(u, v, tol) ==
    IF u = <<>> THEN TRUE
    ELSE IF v = <<>> THEN FALSE
    ELSE IF Near(Head(u).x, Head(v).x, tol) /\ Near(Head(u).y, Head(v).y, tol)
         THEN Greedy(Tail(u), Tail(v), tol) ELSE Greedy(u, Tail(v), tol)
PartOf(u, v, tol) ==
    LET a == TLCEval(Squeeze(u, tol, 1)) n == Len(a)
    IN n = 0 \/ \E s \in 0..(n - 1) : Greedy([i \in 1..n |-> a[((i + s - 1) % n) + 1]], v, tol)
InBox(v, b, tol) == \A i \in 1..Len(v) :
    /\ (b.x0 (-) tol) \preceq v[i].x /\ v[i].x \preceq (b.x1 (+) tol)
    /\ (b.y0 (-) tol) \preceq v[i].y /\ v[i].y \preceq (b.y1 (+) tol)
\* vertices and box sides are in clearly different places, or exactly aligned
ClipSure(v, b, g) ==
    \A i \in 1..Len(v) :
       LET q == v[Nxt(i, Len(v))]
           S(c, k) == g \/ RAbs(c (-) k) \succ (E7 (.) AtLeast1(PSc(v) (+) RSc(b)))
           W(x, y) == x = y \/ RAbs(x (-) y) \succ RFrac(1, 1000)
       IN /\ S(v[i].x, b.x0) /\ S(v[i].x, b.x1) /\ S(v[i].y, b.y0) /\ S(v[i].y, b.y1)
          /\ W(v[i].x, q.x) /\ W(v[i].y, q.y)
\* a corner made by one cut that falls on the side of a later cut is there only up
\* to rounding, so that cut may or may not keep it
CutSure(u, ax, k, kc, le, v, b, tests) ==
    LET m == E7 (.) AtLeast1(PSc(v) (+) RSc(b))
        Off(c, x) == RAbs(c (-) x) \succ m
    IN \A i \in 1..Len(u) :
          LET p == u[i] q == u[Nxt(i, Len(u))]
          IN HIn(p, ax, k, le) # HIn(q, ax, k, le) =>
                LET c == HCut(p, q, ax, kc)
                IN /\ "y1" \in tests => Off(c.y, b.y1)
                   /\ "x0" \in tests => Off(c.x, b.x0)
                   /\ "y0" \in tests => Off(c.y, b.y0)
CutsSure(v, b) ==
    LET s1 == HClip(v, "x", b.x1, b.x1, TRUE)
        s2 == HClip(s1, "y", b.y1, b.y1, TRUE)
    IN /\ CutSure(v, "x", b.x1, b.x1, TRUE, v, b, {"y1", "x0", "y0"})
       /\ CutSure(s1, "y", b.y1, b.y1, TRUE, v, b, {"x0", "y0"})
       /\ CutSure(s1, "y", b.y1, b.y0, TRUE, v, b, {"x0"})
       /\ CutSure(s2, "x", b.x0, b.x0, FALSE, v, b, {"y0"})
\* every corner of the result is on the outline of the expected part
NoStray(got, want, tol) == \A i \in 1..Len(got) : want # <<>> /\ OutlineDist(want, got[i]) \preceq tol
JClip(r, v, b, g) ==
    LET tol == E8 (.) AtLeast1(PSc(v) (+) RSc(b))
        want == TLCEval(Clip(v, b))
        dev == TLCEval(ClipDeviating(v, b))
        atol == Two (.) tol (.) AtLeast1(PSc(v) (+) RSc(b)) (.) RInt(Len(v) + 4)
    IN IF r.t # "poly" THEN {"type"}
       ELSE IF Len(v) < 3 \/ ~RectOk(b) \/ ~ClipSure(v, b, g) THEN Unk
       ELSE IF SameCycle(r.v, want, tol) THEN Ok
       ELSE IF ~CutsSure(v, b) THEN Unk
       \* the cut corners lie on the top side up to rounding, so the cut at the top
       \* side that follows may drop some of them
       ELSE IF ~SameCycle(dev, want, tol) /\ PartOf(r.v, dev, tol) THEN {"known:K1"}
       \* another correct traversal of the same region is as good
       ELSE C("inside-rectangle", InBox(r.v, b, tol))
            \cup C("clipped-area", Near(PArea2(r.v), PArea2(want), atol))
            \cup C("clipped-corners", /\ \A i \in 1..Len(want) : \E j \in 1..Len(r.v) :
                                             Near(want[i].x, r.v[j].x, tol) /\ Near(want[i].y, r.v[j].y, tol))
            \cup C("stray-corner", NoStray(r.v, want, tol))

\* one side only: the part of the polygon in a half plane
HalfOps == [clip_x_le |-> <<"x", TRUE>>, clip_x_ge |-> <<"x", FALSE>>, clip_y_le |-> <<"y", TRUE>>, clip_y_ge |-> <<"y", FALSE>>,
            side_x_le |-> <<"x", TRUE>>, side_x_ge |-> <<"x", FALSE>>, side_y_le |-> <<"y", TRUE>>, side_y_ge |-> <<"y", FALSE>>,
            thr_x_le |-> <<"x", TRUE>>, thr_x_ge |-> <<"x", FALSE>>, thr_y_le |-> <<"y", TRUE>>, thr_y_ge |-> <<"y", FALSE>>]
ClipHalfOps == {"clip_x_le", "clip_x_ge", "clip_y_le", "clip_y_ge"}
SideOps == {"side_x_le", "side_x_ge", "side_y_le", "side_y_ge"}
HalfClip(m, v, k) == HClip(v, HalfOps[m][1], k, k, HalfOps[m][2])
JHalf(r, m, v, k, g) ==
    LET ax == HalfOps[m][1]
        sc == AtLeast1(PSc(v) (+) RAbs(k))
        tol == E8 (.) sc
        atol == Two (.) tol (.) sc (.) RInt(Len(v) + 4)
        Co(p) == IF ax = "x" THEN p.x ELSE p.y
        sure == \A i \in 1..Len(v) :
                  LET q == v[Nxt(i, Len(v))] IN
                  /\ g \/ RAbs(Co(v[i]) (-) k) \succ (E7 (.) sc)
                  /\ Co(v[i]) = Co(q) \/ RAbs(Co(v[i]) (-) Co(q)) \succ RFrac(1, 1000)
        want == TLCEval(HalfClip(m, v, k))
    IN IF r.t # "list" \/ \E i \in 1..Len(r.v) : r.v[i].t # "vec" THEN {"type"}
       ELSE IF Len(v) < 3 \/ ~sure THEN Unk
       ELSE IF SameCycle(r.v, want, tol) THEN Ok
       ELSE C("inside", \A i \in 1..Len(r.v) : HIn(r.v[i], ax, IF HalfOps[m][2] THEN k (+) tol ELSE k (-) tol, HalfOps[m][2]))
            \cup C("clipped-area", Near(PArea2(r.v), PArea2(want), atol))
            \cup C("clipped-corners", \A i \in 1..Len(want) : \E j \in 1..Len(r.v) :
                                             Near(want[i].x, r.v[j].x, tol) /\ Near(want[i].y, r.v[j].y, tol))
            \cup C("stray-corner", NoStray(r.v, want, tol))

JPolygon(m, A, r, P, g) ==
    LET k == A[1]
        v == A[1].v
        p == A[2]
        n == Len(v)
        onOk == IF Len(A) >= 3 THEN A[3].v ELSE TRUE
    IN CASE m = "new0" -> JSame(r, PolyMk(<<Vec(Z, Z)>>))
         [] m = "newL" -> JSame(r, PolyMk(A[1].v))
         [] m = "newV" -> JSame(r, PolyMk(A))
         [] m = "clear" -> JSame(P[1], PolyMk(<<Vec(Z, Z)>>))
         [] m = "assign" -> JSame(P[1], IF Len(A[2].v) = 0 THEN k ELSE PolyMk(A[2].v)) \cup JSame(r, P[1])
         [] m = "add_vertex" -> JSame(P[1], PolyMk(Append(v, p)))
         [] m \in {"vertices", "vertices_"} -> JSame(r, [t |-> "list", v |-> v])
         [] m = "get_bounding_box" ->
                IF n = 0 THEN (IF r.t # "rect" THEN {"type"} ELSE C("empty", r.l = Z /\ r.w = Z))
                ELSE RectSpan(r, MinX(v), MinY(v), MaxX(v), MaxY(v), IF g THEN Z ELSE Rel12(PSc(v)))
         [] m = "bounding_box_center" ->
                IF n = 0 THEN JType(r, "vec")
                ELSE JVec(r, Vec((MinX(v) (+) MaxX(v)) (/) Two, (MinY(v) (+) MaxY(v)) (/) Two), Rel12(PSc(v)))
         [] m = "contains" -> JBool(r, Contains3(v, p, onOk, g))
         [] m = "dist" ->
                IF n = 0 THEN Unk
                ELSE LET in == IF onOk /\ n > 1 THEN Contains3(v, p, TRUE, g) ELSE "F"
                         d == OutlineDist(v, p)
                     IN IF in = "T" THEN JNum(r, Z, Z)
                        ELSE IF in = "F" THEN JNum(r, d, PDTol(v, p, n))
                        ELSE \* next to the outline: zero and the outline distance agree
                             JNum(r, Z, d (+) PDTol(v, p, n))
         [] m = "area" -> JNum(r, RAbs(PArea2(v)) (/) Two, PATol(v))
         [] m = "double_signed_area" -> JNum(r, PArea2(v), PATol(v))
         [] m = "is_counter_clockwise" -> JBool(r, Pos3(PArea2(v), IF g THEN Z ELSE PATol(v)))
         [] m = "is_clockwise" -> JBool(r, Pos3(RNeg(PArea2(v)), IF g THEN Z ELSE PATol(v)))
         [] m = "get_rectangle_clipped_polygon" -> JClip(r, v, A[2], g)
         [] m \in ClipHalfOps -> JHalf(r, m, v, A[2].v, g)
         [] m \in SideOps -> JBool(r, T3(HIn(A[2], HalfOps[m][1], A[1].v, HalfOps[m][2])))
         [] m \in DOMAIN HalfOps -> JNum(r, A[1].v, Z)
         [] OTHER -> {"unknown-op"}

\* ------------------------------ convex hull ------------------------------------
VIn(p, v) == \E i \in 1..Len(v) : Same(p, v[i])
RECURSIVE Extent2(_, _)
AllCollinear(v) == \A i, j \in 1..Len(v) : Area2(v[1], v[i], v[j]) = Z
Extent2(v, i) == IF i = 0 THEN Z ELSE RMax(D2(v[1], v[i]), Extent2(v, i - 1))
Distinct(v) == \A i, j \in 1..Len(v) : i # j => ~Same(v[i], v[j])
HullTol(v, g) == IF g THEN Z ELSE E5 (+) (E10 (.) Sq(PSc(v)))
IsHull(in, v, g) ==
    LET n == Len(v) tol == HullTol(in, g) IN
    C("from-input", \A i \in 1..n : VIn(v[i], in))
    \cup C("no-repeats", Distinct(v))
    \cup C("contains-all", \A i \in 1..n : \A j \in 1..Len(in) :
                              Area2(v[i], v[Nxt(i, n)], in[j]) \succeq RNeg(tol))
    \cup C("at-least-3", n >= 3)
    \cup C("strictly-convex", g => \A i \in 1..n : \A j \in 1..n :
               j \notin {i, Nxt(i, n)} => Area2(v[i], v[Nxt(i, n)], v[j]) \succ Z)
IsFlatHull(in, v) ==
    LET n == Len(v) IN
    C("from-input", \A i \in 1..n : VIn(v[i], in))
    \cup C("no-repeats", Distinct(v))
    \cup C("two-ends", n = 2)
    \cup C("spans", \A j \in 1..Len(in) : \E i, l \in 1..n : OnSeg(SMk(v[i], v[l]), in[j]))
EdgesMatch(v, e) ==
    LET n == Len(v) IN
    /\ Len(e) = n
    /\ \A i \in 1..n : \E j \in 1..n : Same(e[j].o, v[i]) /\ Same(e[j].e, v[Nxt(i, n)])
\* off the grid: no two input points and no three in line as far as the library's
\* thresholds can tell
HullSure(in) ==
    LET n == Len(in) k == E4 (.) AtLeast1(PSc(in)) IN
    /\ \A i \in 1..n : \A j \in (i + 1)..n :
          /\ ~Same(in[i], in[j]) => VSc(VSub(in[i], in[j])) \succ E3
          /\ \A l \in (j + 1)..n :
                \/ RAbs(Area2(in[i], in[j], in[l])) \succ k
                \/ Same(in[i], in[j]) \/ Same(in[i], in[l]) \/ Same(in[j], in[l])
\* even where the library's tolerance decides which points are corners
RoughHull(in, h) ==
    LET bad == C("vertices", \A i \in 1..Len(h.v) : \E j \in 1..Len(in) : Same(h.v[i], in[j]))
               \cup C("edges", EdgesMatch(h.v, h.e))
    IN IF bad = {} THEN Unk ELSE bad
JCompute(in, h, g) ==
    IF Len(in) < 3 THEN C("too-few", Len(h.v) = 0 /\ Len(h.e) = 0)
    ELSE IF \A i \in 1..Len(in) : Same(in[1], in[i]) THEN Unk
    ELSE IF AllCollinear(in) THEN (IF g THEN IsFlatHull(in, h.v) \cup C("edges", EdgesMatch(h.v, h.e)) ELSE RoughHull(in, h))
    ELSE IF ~g /\ ~HullSure(in) THEN RoughHull(in, h)
    ELSE IsHull(in, h.v, g) \cup C("edges", EdgesMatch(h.v, h.e))

RECURSIVE Dedup(_, _)
Dedup(s, acc) == IF s = <<>> THEN acc
                 ELSE Dedup(Tail(s), IF \E i \in 1..Len(acc) : acc[i] = Head(s) THEN acc
                                     ELSE Append(acc, Head(s)))

LexLe(p, q) == p.x \prec q.x \/ (p.x = q.x /\ p.y \preceq q.y)
JHull(m, A, r, P, g) ==
    LET h == A[1]
        q == P[1]
        Is(v, in, vs, es) == IF v.t # "hull" THEN {"type"}
                             ELSE C("inputs", v.i = in) \cup C("vertices", v.v = vs) \cup C("edges", v.e = es)
    IN CASE m = "new" -> Is(r, A[1].v, <<>>, <<>>)
         [] m = "add_point" -> Is(q, Append(h.i, A[2]), h.v, h.e)
         [] m = "add_points" -> Is(q, h.i \o A[2].v, h.v, h.e)
         [] m = "clear" -> Is(q, <<>>, <<>>, <<>>)
         [] m = "clear_results" -> Is(q, h.i, <<>>, <<>>)
         [] m \in {"compute", "computeW", "computeG", "compute_wrapping_method", "compute_graham_scan"} ->
                C("inputs", q.i = h.i) \cup JCompute(h.i, q, g)
         [] m \in {"input_points", "input_points_"} -> JSame(r, [t |-> "list", v |-> h.i])
         [] m \in {"vertices", "vertices_"} -> JSame(r, [t |-> "list", v |-> h.v])
         [] m \in {"edges", "edges_"} -> JSame(r, [t |-> "list", v |-> h.e])
         [] m = "get_min_point_index" ->
                IF r.t # "num" THEN {"type"}
                ELSE IF h.i = <<>> THEN C("none", r.v = RInt(-1))
                ELSE IF ~(RIsInt(r.v) /\ RSgn(r.v) >= 0 /\ r.v \prec RInt(Len(h.i))) THEN {"index"}
                ELSE LET p == h.i[RToInt(r.v) + 1]
                     IN C("minimum", \A i \in 1..Len(h.i) : LexLe(p, h.i[i]))
         \* around the minimum, counter-clockwise, nearer points first
         [] m = "sorted_from_min" ->
                IF r.t # "list" THEN {"type"}
                ELSE IF h.i = <<>> THEN C("none", r.v = <<>>)
                ELSE IF ~g THEN Unk
                ELSE C("base-first", r.v # <<>> /\ \A i \in 1..Len(h.i) : LexLe(r.v[1], h.i[i]))
                     \cup C("all-points", \A i \in 1..Len(h.i) : VIn(h.i[i], r.v))
                     \cup C("from-input", \A i \in 1..Len(r.v) : VIn(r.v[i], h.i))
                     \cup C("sorted", \A i \in 2..Len(r.v) - 1 :
                              LET a == Area2(r.v[1], r.v[i], r.v[i + 1])
                              IN RSgn(a) > 0 \/ (a = Z /\ D2(r.v[1], r.v[i]) \prec D2(r.v[1], r.v[i + 1])))
         [] m = "to_polygon" -> JSame(r, PolyMk(h.v))
         [] m = "list2set" -> JSame(r, [t |-> "list", v |-> Dedup(A[1].v, <<>>)])
         [] m = "is_clockwise" ->
                LET a == Area2(A[1], A[2], A[3]) IN
                IF RAbs(a) \prec (Two (.) EPSILON) THEN Unk ELSE JBool(r, T3(RSgn(a) < 0))
         [] OTHER -> {"unknown-op"}
=============================================================================
