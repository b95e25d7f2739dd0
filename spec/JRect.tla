------------------------------- MODULE JRect -------------------------------
(***************************************************************************)
(* Size2D and Rect2D.  A rectangle is left/top corner plus a size with     *)
(* non-negative sides; right = left + length, bottom = top + width.        *)
(***************************************************************************)
EXTENDS JCircle

ZMk(l, w) == [t |-> "size", l |-> RAbs(l), w |-> RAbs(w)]
\* consistency of what the rectangle's accessors report
RectWF(v, tol) == /\ Near(v.x1, v.x0 (+) v.l, tol) /\ Near(v.y1, v.y0 (+) v.w, tol)
                  /\ RSgn(v.l) >= 0 /\ RSgn(v.w) >= 0
RSc(v) == RMax(RMax(RAbs(v.x0), RAbs(v.x1)), RMax(RAbs(v.y0), RAbs(v.y1)))
\* rectangle value v has corner (x, y) and extent (l, w)
RectIs(v, x, y, l, w, tol) ==
    IF v.t # "rect" THEN {"type"}
    ELSE C("left", Near(v.x0, x, tol)) \cup C("top", Near(v.y0, y, tol))
         \cup C("length", Near(v.l, RAbs(l), tol)) \cup C("width", Near(v.w, RAbs(w), tol))
         \cup C("right", Near(v.x1, x (+) RAbs(l), tol)) \cup C("bottom", Near(v.y1, y (+) RAbs(w), tol))
         \cup C("wf", RectWF(v, tol))
\* rectangle spanned by two opposite corners
RectSpan(v, xa, ya, xb, yb, tol) ==
    RectIs(v, RMin(xa, xb), RMin(ya, yb), RAbs(xa (-) xb), RAbs(ya (-) yb), tol)
Corners(v) == <<Vec(v.x0, v.y0), Vec(v.x1, v.y0), Vec(v.x1, v.y1), Vec(v.x0, v.y1)>>
RectOk(v) == RSgn(v.l) > 0 /\ RSgn(v.w) > 0

JSize(m, A, r, P, g) ==
    LET s == A[1] IN
    CASE m = "new0" -> JSame(r, ZMk(Z, Z))
      [] m = "new" -> JSame(r, ZMk(A[1].v, A[2].v))
      [] m = "assign" -> JSame(P[1], ZMk(A[2].v, A[3].v))
      [] m = "set_length" -> JSame(P[1], ZMk(A[2].v, s.w))
      [] m = "set_width" -> JSame(P[1], ZMk(s.l, A[2].v))
      [] m = "length" -> JNum(r, s.l, Z)
      [] m = "width" -> JNum(r, s.w, Z)
      [] m = "diagonal" -> JNum(r, RSqrt(Sq(s.l) (+) Sq(s.w)), Rel12(RMax(s.l, s.w)))
      [] m = "is_valid" -> JBool(r, T3(RSgn(s.l) > 0 /\ RSgn(s.w) > 0))
      [] m = "eq" -> LET W(x, y) == Lt3(RAbs(x (-) y), EPSILON, E13 (.) E3)
                     IN JBool(r, And3(W(s.l, A[2].l), W(s.w, A[2].w)))
      [] OTHER -> {"unknown-op"}

\* overlap of two non-empty rectangles
JIntersected(r, v, o, tol) ==
    LET xa == RMax(v.x0, o.x0) ya == RMax(v.y0, o.y0)
        xb == RMin(v.x1, o.x1) yb == RMin(v.y1, o.y1)
    IN IF ~RectOk(v) \/ ~RectOk(o) \/ xb \preceq xa \/ yb \preceq ya
       THEN IF tol # Z /\ RectOk(v) /\ RectOk(o)
               /\ (Near(xa, xb, tol) \/ Near(ya, yb, tol)) THEN Unk
            ELSE IF r.t # "rect" THEN {"type"}
            ELSE C("empty", r.l = Z \/ r.w = Z)
       ELSE IF tol # Z /\ (Near(xa, xb, tol) \/ Near(ya, yb, tol)) THEN Unk
       ELSE RectSpan(r, xa, ya, xb, yb, tol)

JRect(m, A, r, P, g) ==
    LET v == A[1]
        q == P[1]
        x == A[2].v
        p == A[2]
        xy == IF A[2].t = "vec" THEN A[2] ELSE Vec(A[2].v, A[3].v)     \* corner argument
        sc == RSc(v)
        T(s) == IF g THEN Z ELSE Rel12(s)
        tx == T(sc (+) RAbs(x))
        txy == T(sc (+) VSc(xy))
        pt == IF g THEN Z ELSE Rel12(sc (+) VSc(p))
        At2(X, Y) == JVec(r, Vec(X, Y), T(sc))
        Edge(i, j) == IF Same(Corners(v)[i], Corners(v)[j]) THEN JType(r, "line")
                      ELSE JThrough(r, Corners(v)[i], Corners(v)[j])
    IN CASE m = "new4" -> RectIs(r, A[1].v, A[2].v, A[3].v, A[4].v, T(MaxAbs(<<A[1].v, A[2].v, A[3].v, A[4].v>>)))
         [] m = "newVLW" -> RectIs(r, A[1].x, A[1].y, A[2].v, A[3].v, T(MaxAbs(<<VSc(A[1]), A[2].v, A[3].v>>)))
         [] m = "newVS" -> RectIs(r, A[1].x, A[1].y, A[2].l, A[2].w, T(MaxAbs(<<VSc(A[1]), A[2].l, A[2].w>>)))
         [] m = "newVV" -> RectSpan(r, A[1].x, A[1].y, A[2].x, A[2].y, T(VSc(A[1]) (+) VSc(A[2])))
         [] m = "newR" -> JSame(r, A[1])
         [] m = "bad" -> JExc(r)
         [] m = "assign4" -> RectIs(q, A[2].v, A[3].v, A[4].v, A[5].v, T(MaxAbs(<<A[2].v, A[3].v, A[4].v, A[5].v>>))) \cup JSame(r, q)
         [] m = "assignVLW" -> RectIs(q, A[2].x, A[2].y, A[3].v, A[4].v, T(MaxAbs(<<VSc(A[2]), A[3].v, A[4].v>>))) \cup JSame(r, q)
         [] m = "assignVS" -> RectIs(q, A[2].x, A[2].y, A[3].l, A[3].w, T(MaxAbs(<<VSc(A[2]), A[3].l, A[3].w>>))) \cup JSame(r, q)
         [] m = "assignVV" -> RectSpan(q, A[2].x, A[2].y, A[3].x, A[3].y, T(VSc(A[2]) (+) VSc(A[3]))) \cup JSame(r, q)
         [] m = "assignR" -> JSame(q, A[2]) \cup JSame(r, q)
         [] m = "from_center4" -> RectIs(r, A[1].v (-) (A[3].v (/) Two), A[2].v (-) (A[4].v (/) Two), A[3].v, A[4].v,
                                         T(MaxAbs(<<A[1].v, A[2].v, A[3].v, A[4].v>>)))
         [] m = "from_centerV" -> RectIs(r, A[1].x (-) (A[2].v (/) Two), A[1].y (-) (A[3].v (/) Two), A[2].v, A[3].v,
                                         T(MaxAbs(<<VSc(A[1]), A[2].v, A[3].v>>)))
         \* moving keeps the size
         [] m = "move_center" -> RectIs(q, p.x (-) (v.l (/) Two), p.y (-) (v.w (/) Two), v.l, v.w, txy)
         [] m = "move_top_left" -> RectIs(q, p.x, p.y, v.l, v.w, txy)
         [] m = "move_bottom_right" -> RectIs(q, p.x (-) v.l, p.y (-) v.w, v.l, v.w, txy)
         [] m \in {"move_left", "move_min_x"} -> RectIs(q, x, v.y0, v.l, v.w, tx)
         [] m \in {"move_right", "move_max_x"} -> RectIs(q, x (-) v.l, v.y0, v.l, v.w, tx)
         [] m \in {"move_top", "move_min_y"} -> RectIs(q, v.x0, x, v.l, v.w, tx)
         [] m \in {"move_bottom", "move_max_y"} -> RectIs(q, v.x0, x (-) v.w, v.l, v.w, tx)
         \* setting one side or corner keeps the opposite one
         [] m \in {"set_left", "set_min_x"} -> RectSpan(q, x, v.y0, v.x1, v.y1, tx)
         [] m \in {"set_right", "set_max_x"} -> RectSpan(q, v.x0, v.y0, x, v.y1, tx)
         [] m \in {"set_top", "set_min_y"} -> RectSpan(q, v.x0, x, v.x1, v.y1, tx)
         [] m \in {"set_bottom", "set_max_y"} -> RectSpan(q, v.x0, v.y0, v.x1, x, tx)
         [] m = "set_top_left" -> RectSpan(q, xy.x, xy.y, v.x1, v.y1, txy) \cup JSame(r, q)
         [] m = "set_bottom_right" -> RectSpan(q, v.x0, v.y0, xy.x, xy.y, txy) \cup JSame(r, q)
         [] m = "set_length" -> RectIs(q, v.x0, v.y0, x, v.w, tx)
         [] m = "set_width" -> RectIs(q, v.x0, v.y0, v.l, x, tx)
         [] m = "set_size2" -> RectIs(q, v.x0, v.y0, A[2].v, A[3].v, T(sc (+) RAbs(A[2].v) (+) RAbs(A[3].v)))
         [] m = "set_sizeS" -> RectIs(q, v.x0, v.y0, A[2].l, A[2].w, T(sc (+) A[2].l (+) A[2].w))
         \* queries
         [] m = "is_valid" -> JBool(r, T3(RectOk(v)))
         [] m = "area" -> JNum(r, v.l (.) v.w, T(v.l (.) v.w))
         [] m \in {"left", "min_x"} -> JNum(r, v.x0, Z) \cup C("wf", RectWF(v, T(sc)))
         [] m \in {"right", "max_x"} -> JNum(r, v.x1, Z) \cup C("wf", RectWF(v, T(sc)))
         [] m \in {"top", "min_y"} -> JNum(r, v.y0, Z) \cup C("wf", RectWF(v, T(sc)))
         [] m \in {"bottom", "max_y"} -> JNum(r, v.y1, Z) \cup C("wf", RectWF(v, T(sc)))
         [] m \in {"size", "size_"} -> JSame(r, ZMk(v.l, v.w))
         [] m = "center" -> At2((v.x0 (+) v.x1) (/) Two, (v.y0 (+) v.y1) (/) Two)
         [] m \in {"top_left", "top_left_"} -> JVec(r, Vec(v.x0, v.y0), Z)
         [] m = "top_right" -> At2(v.x1, v.y0)
         [] m = "bottom_left" -> At2(v.x0, v.y1)
         [] m = "bottom_right" -> At2(v.x1, v.y1)
         [] m = "left_edge" -> Edge(1, 4)
         [] m = "right_edge" -> Edge(2, 3)
         [] m = "top_edge" -> Edge(1, 2)
         [] m = "bottom_edge" -> Edge(4, 3)
         [] m = "contains" -> JBool(r, All3(<<Le3(v.x0, p.x, pt), Le3(p.x, v.x1, pt), Le3(v.y0, p.y, pt), Le3(p.y, v.y1, pt)>>))
         [] m = "contains_almost" ->
                LET e == A[3].v IN
                JBool(r, All3(<<Le3(v.x0 (-) e, p.x, pt), Le3(p.x, v.x1 (+) e, pt),
                                Le3(v.y0 (-) e, p.y, pt), Le3(p.y, v.y1 (+) e, pt)>>))
         [] m = "intersected" -> JIntersected(r, v, A[2], T(sc (+) RSc(A[2])))
         [] m = "united" -> IF ~RectOk(v) \/ ~RectOk(A[2]) THEN JType(r, "rect")
                ELSE RectSpan(r, RMin(v.x0, A[2].x0), RMin(v.y0, A[2].y0),
                                 RMax(v.x1, A[2].x1), RMax(v.y1, A[2].y1), T(sc (+) RSc(A[2])))
         [] m = "intersectionL" -> IF r.t # "list" THEN {"type"} ELSE IF ~RectOk(v) THEN Unk
                                   ELSE JHitsLine(r.v, Corners(v), A[2], g)
         [] m = "intersectionR" -> IF r.t # "list" THEN {"type"} ELSE IF ~RectOk(v) THEN Unk
                                   ELSE JHitsRay(r.v, Corners(v), A[2])
         [] m = "intersectionS" -> IF r.t # "list" THEN {"type"} ELSE IF ~RectOk(v) THEN Unk
                                   ELSE JHitsSeg(r.v, Corners(v), A[2], g)
         [] OTHER -> {"unknown-op"}
=============================================================================
