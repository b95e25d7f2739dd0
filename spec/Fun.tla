-------------------------------- MODULE Fun --------------------------------
(***************************************************************************)
(* A functional reference semantics of the library: what a call returns    *)
(* and what its arguments are afterwards, as a computation.                *)
(*                                                                         *)
(* PyrusGeom judges calls relationally (any result that satisfies the       *)
(* clauses is a behaviour).  Fun computes one result.  The models MC_*      *)
(* check by exhaustive exploration that the two agree: every outcome of Fun *)
(* is accepted by Judge, every perturbed outcome is rejected; and they use  *)
(* Fun as the transition function of the state machines whose behaviours    *)
(* are replayed on the implementation.                                      *)
(***************************************************************************)
EXTENDS PyrusGeom

None == [t |-> "none"]
NumV(x) == [t |-> "num", v |-> x]
BoolV(b) == [t |-> "bool", v |-> b]
AngV(d) == [t |-> "ang", d |-> d]
ListV(s) == [t |-> "list", v |-> s]
RectMk(x, y, l, w) == [t |-> "rect", x0 |-> x, y0 |-> y, x1 |-> x (+) l, y1 |-> y (+) w, l |-> l, w |-> w]
SectMk(c, r0, r1, s, e) == [t |-> "sect", c |-> c, r0 |-> r0, r1 |-> r1, s |-> s, e |-> e]
HullMk(i, v, e) == [t |-> "hull", i |-> i, v |-> v, e |-> e]

\* degrees brought into (-180, 180]
NormD(x) == LET y == DegRed(x) IN IF y = RNeg(D180) THEN D180 ELSE y
Flag(p, ok) == [p EXCEPT !.ok = ok]

\* --- exact rotation by quarter turns (the models use no other) -----------------
Quarter(deg) == RToInt(Mod360(deg) (/) D90)
Turned(p, deg) == LET q == Quarter(deg)
                  IN CASE q = 0 -> Vec(p.x, p.y)
                       [] q = 1 -> Vec(RNeg(p.y), p.x)
                       [] q = 2 -> Vec(RNeg(p.x), RNeg(p.y))
                       [] q = 3 -> Vec(p.y, RNeg(p.x))

\* --- rectangles from two opposite corners ---------------------------------------
Span(xa, ya, xb, yb) == RectMk(RMin(xa, xb), RMin(ya, yb), RAbs(xa (-) xb), RAbs(ya (-) yb))
Overlap(a, b) ==
    LET x == RMax(a.x0, b.x0) y == RMax(a.y0, b.y0) X == RMin(a.x1, b.x1) Y == RMin(a.y1, b.y1)
    IN IF ~RectOk(a) \/ ~RectOk(b) \/ X \preceq x \/ Y \preceq y THEN RectMk(Z, Z, Z, Z)
       ELSE RectMk(x, y, X (-) x, Y (-) y)

\* --- convex hull: Andrew's monotone chain ----------------------------------------
Before(p, q) == RLt(p.x, q.x) \/ (p.x = q.x /\ RLt(p.y, q.y))
RECURSIVE Insert(_, _), SortPts(_), Chain(_, _), Pop(_, _)
Insert(p, s) == IF s = <<>> THEN <<p>>
                ELSE IF Same(p, Head(s)) THEN s
                ELSE IF Before(p, Head(s)) THEN <<p>> \o s ELSE <<Head(s)>> \o Insert(p, Tail(s))
SortPts(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), SortPts(Tail(s)))      \* drops repetitions
Pop(st, p) == LET n == Len(st) IN
              IF n >= 2 /\ RSgn(Area2(st[n - 1], st[n], p)) <= 0 THEN Pop(SubSeq(st, 1, n - 1), p) ELSE st
Chain(st, s) == IF s = <<>> THEN st ELSE Chain(Append(Pop(st, Head(s)), Head(s)), Tail(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Front(s) == SubSeq(s, 1, Len(s) - 1)
HullOf(in) == LET s == TLCEval(SortPts(in))
              IN IF Len(s) = 1 THEN s
                 ELSE Front(Chain(<<>>, s)) \o Front(Chain(<<>>, Rev(s)))
EdgesOf(v) == [i \in 1..Len(v) |-> SMk(v[i], v[Nxt(i, Len(v))])]
Computed(in) == IF Len(in) < 3 THEN HullMk(in, <<>>, <<>>)
                ELSE LET v == TLCEval(HullOf(in)) IN HullMk(in, v, EdgesOf(v))

RECURSIVE Removed(_, _)
Removed(s, acc) == IF s = <<>> THEN acc
                   ELSE Removed(Tail(s), IF \E i \in 1..Len(acc) : Same(acc[i], Head(s)) THEN acc ELSE Append(acc, Head(s)))

\* --- the table ----------------------------------------------------------------------
\* R(v): returns v, changes nothing; M(v): receiver becomes v; S(v): ... and is returned
Fn(c, m, A) ==
    LET o == A[1]
        R(v) == [r |-> v, p |-> A]
        Num(x) == R(NumV(x))
        Bool(b) == R(BoolV(b))
        M(v) == [r |-> None, p |-> [A EXCEPT ![1] = v]]
        S(v) == [r |-> v, p |-> [A EXCEPT ![1] = v]]
        n(i) == A[i].v
        XY(p) == [o EXCEPT !.x = p.x, !.y = p.y]          \* receiver with the coordinates of p
    IN CASE c = "ang" ->
         (CASE m = "new0" -> R(AngV(Z))
            [] m \in {"new", "newaf"} -> R(AngV(NormD(n(1))))
            [] m \in {"newA", "copy"} -> R(o)
            [] m \in {"degree", "degree_", "float"} -> Num(o.d)
            [] m \in {"set_degree", "set_angle"} -> M(AngV(NormD(Deg(A[2]))))
            [] m = "normal" -> M(o)
            [] m = "abs" -> Num(RAbs(o.d))
            [] m = "radian" -> Num(Rad(o.d))
            [] m = "reverse" -> M(AngV(NormD(o.d (+) D180)))
            [] m = "reverse_angle" -> R(AngV(NormD(o.d (+) D180)))
            [] m = "get_normalized" -> Num((o.d (+) D180) (/) D360)
            [] m = "add" -> R(AngV(NormD(o.d (+) Deg(A[2]))))
            [] m = "sub" -> R(AngV(NormD(o.d (-) Deg(A[2]))))
            [] m = "mul" -> R(AngV(NormD(o.d (.) n(2))))
            [] m = "neg" -> R(AngV(NormD(RNeg(o.d))))
            [] m = "iadd" -> S(AngV(NormD(o.d (+) Deg(A[2]))))
            [] m = "isub" -> S(AngV(NormD(o.d (-) Deg(A[2]))))
            [] m = "imul" -> S(AngV(NormD(o.d (.) n(2))))
            [] m = "itruediv" -> S(AngV(NormD(o.d (/) n(2))))
            [] m = "eq" -> Bool(o.d = Deg(A[2])))
       [] c = "vec" ->
         (CASE m = "new0" -> R(Vec(Z, Z))
            [] m \in {"new", "newxy"} -> R(Vec(n(1), n(2)))
            [] m \in {"newV", "copy", "get_copy"} -> R(o)
            [] m \in {"newra", "from_polar", "polar2vector"} -> R(Turned(Vec(n(1), Z), Deg(A[2])))
            [] m \in {"x", "get_x"} -> Num(o.x)
            [] m \in {"y", "get_y"} -> Num(o.y)
            [] m = "is_valid" -> Bool(o.ok)
            [] m = "validate" -> M(Flag(o, TRUE))
            [] m = "invalidate" -> M(Flag(o, FALSE))
            [] m = "assign" -> S(XY(Vec(n(2), n(3))))
            [] m = "set_x_y" -> M(XY(Vec(n(2), n(3))))
            [] m = "set_x" -> M(XY(Vec(n(2), o.y)))
            [] m = "set_y" -> M(XY(Vec(o.x, n(2))))
            [] m = "set_vector" -> M(A[2])
            [] m = "set_polar" -> M(XY(Turned(Vec(n(2), Z), Deg(A[3]))))
            [] m \in {"add", "iadd"} -> LET w == Operand(A) s == XY(VAdd(o, w)) IN IF m = "add" THEN M(s) ELSE S(s)
            [] m \in {"sub", "isub"} -> LET w == Operand(A) s == XY(VSub(o, w)) IN IF m = "sub" THEN M(s) ELSE S(s)
            [] m = "add_x" -> M(XY(Vec(o.x (+) n(2), o.y)))
            [] m = "add_y" -> M(XY(Vec(o.x, o.y (+) n(2))))
            [] m = "sub_x" -> M(XY(Vec(o.x (-) n(2), o.y)))
            [] m = "sub_y" -> M(XY(Vec(o.x, o.y (-) n(2))))
            [] m \in {"scale", "imul"} -> LET s == XY(VMul(o, n(2))) IN IF m = "scale" THEN M(s) ELSE S(s)
            [] m = "itruediv" -> S(XY(VMul(o, One (/) n(2))))
            [] m = "reverse" -> S(XY(VMul(o, RInt(-1))))
            [] m = "reverse_vector" -> R(VMul(o, RInt(-1)))
            [] m = "abs" -> R(Vec(RAbs(o.x), RAbs(o.y)))
            [] m = "abs_x" -> Num(RAbs(o.x))
            [] m = "abs_y" -> Num(RAbs(o.y))
            [] m \in {"r", "length"} -> Num(Norm(o))
            [] m \in {"r2", "length2"} -> Num((o.x (.) o.x) (+) (o.y (.) o.y))
            [] m = "dist" -> Num(RSqrt(Sq(o.x (-) A[2].x) (+) Sq(o.y (-) A[2].y)))
            [] m = "dist2" -> Num(Sq(o.x (-) A[2].x) (+) Sq(o.y (-) A[2].y))
            [] m \in {"inner_product", "inner_product_static"} -> Num((o.x (.) A[2].x) (+) (o.y (.) A[2].y))
            [] m \in {"outer_product", "outer_product_static"} -> Num((o.x (.) A[2].y) (-) (o.y (.) A[2].x))
            [] m \in {"equals", "eq", "equals_weakly"} -> Bool(o.x = A[2].x /\ o.y = A[2].y)
            [] m = "ne" -> Bool(o.x # A[2].x \/ o.y # A[2].y)
            [] m = "hash_eq" -> Bool(o.x = A[2].x /\ o.y = A[2].y)
            [] m = "rotate" -> S(XY(Turned(o, Deg(A[2]))))
            [] m = "rotated_vector" -> R(Turned(o, Deg(A[2])))
            [] m = "plus" -> R(VAdd(o, A[2]))
            [] m = "minus" -> R(VSub(o, A[2]))
            [] m = "times" -> R(VMul(o, n(2)))
            [] m = "over" -> R(VMul(o, One (/) n(2))))
       [] c = "line" ->
         (CASE m \in {"newL", "newl", "copy"} -> R(o)
            [] m \in {"new", "newabc"} -> R(LMk(n(1), n(2), n(3)))
            [] m \in {"newPP", "newpp"} -> R(LineThrough(A[1], A[2]))
            [] m = "a" -> Num(o.a) [] m = "b" -> Num(o.b) [] m = "c" -> Num(o.c))
       [] c = "ray" ->
         (CASE m = "newA" -> R([t |-> "ray", o |-> A[1], d |-> NormD(Deg(A[2]))])
            [] m = "copy" -> R(o)
            [] m \in {"origin", "origin_"} -> R(o.o)
            [] m \in {"dir", "dir_"} -> R(AngV(o.d))
            [] m = "live_origin" -> M([o EXCEPT !.o = SetXY(o.o, n(2), n(3))])
            [] m = "live_dir" -> M([o EXCEPT !.d = NormD(n(2))])
            [] m = "eq" -> Bool(Same(o.o, A[2].o) /\ o.d = A[2].d)
            [] m \in PeekOps -> R(None))
       [] c = "seg" ->
         (CASE m = "newPP" -> R(SMk(A[1], A[2]))
            [] m = "new4" -> R(SMk(Vec(n(1), n(2)), Vec(n(3), n(4))))
            [] m = "newPLA" -> R(SMk(A[1], VAdd(A[1], Turned(Vec(n(2), Z), Deg(A[3])))))
            [] m = "assign0" -> M(SMk(Vec(Z, Z), Vec(Z, Z)))
            [] m = "assignPP" -> M(SMk(A[2], A[3]))
            [] m = "assignPLA" -> M(SMk(A[2], VAdd(A[2], Turned(Vec(n(3), Z), Deg(A[4])))))
            [] m = "assign4" -> M(SMk(Vec(n(2), n(3)), Vec(n(4), n(5))))
            [] m \in {"origin", "origin_"} -> R(o.o)
            [] m \in {"terminal", "terminal_"} -> R(o.e)
            [] m = "copy" -> R(o)
            [] m = "is_valid" -> Bool(~Same(o.o, o.e))
            [] m = "length" -> Num(Norm(VSub(o.e, o.o)))
            [] m = "line" -> R(LineThrough(o.o, o.e))
            [] m \in {"swap", "reverse"} -> S(SMk(o.e, o.o))
            [] m = "reversed_segment" -> R(SMk(o.e, o.o))
            [] m \in {"eq", "equals_weakly"} -> Bool(Same(o.o, A[2].o) /\ Same(o.e, A[2].e))
            [] m = "live_origin" -> M([o EXCEPT !.o = SetXY(o.o, n(2), n(3))])
            [] m = "live_terminal" -> M([o EXCEPT !.e = SetXY(o.e, n(2), n(3))])
            [] m \in PeekOps -> R(None))
       [] c = "tri" ->
         (CASE m = "new3" -> R(TMk(A[1], A[2], A[3]))
            [] m = "newSP" -> R(TMk(A[1].o, A[1].e, A[2]))
            [] m = "assign3" -> S(TMk(A[2], A[3], A[4]))
            [] m = "assignSP" -> S(TMk(A[2].o, A[2].e, A[3]))
            [] m \in {"a", "a_"} -> R(o.a) [] m \in {"b", "b_"} -> R(o.b) [] m \in {"c", "c_"} -> R(o.c)
            [] m = "is_valid" -> Bool(o.a.ok /\ o.b.ok /\ o.c.ok /\ AllDistinct(o))
            [] m = "area" -> Num(RAbs(TArea2(o)) (/) Two)
            [] m = "signed_area" -> Num(TArea2(o) (/) Two)
            [] m = "double_signed_area" -> Num(((o.b.x (-) o.a.x) (.) (o.c.y (-) o.a.y)) (-) ((o.c.x (-) o.a.x) (.) (o.b.y (-) o.a.y)))
            [] m = "ccw" -> Bool(RSgn(TArea2(o)) > 0)
            [] m = "centroid" -> R(Centroid(o))
            [] m = "live_a" -> M([o EXCEPT !.a = SetXY(o.a, n(2), n(3))])
            [] m = "live_b" -> M([o EXCEPT !.b = SetXY(o.b, n(2), n(3))])
            [] m = "live_c" -> M([o EXCEPT !.c = SetXY(o.c, n(2), n(3))])
            [] m \in PeekOps -> R(None))
       [] c = "circ" ->
         (CASE m = "new0" -> R(CMk(Vec(Z, Z), Z))
            [] m = "new" -> R(CMk(A[1], RMax(Z, n(2))))
            [] m = "assign" -> M(CMk(A[2], RMax(Z, n(3))))
            [] m \in {"center", "center_"} -> R(o.c)
            [] m = "radius" -> Num(o.r)
            [] m = "area" -> Num(PI (.) Sq(o.r))
            [] m = "contains" -> Bool(D2(o.c, A[2]) \prec Sq(o.r))
            [] m = "live_center" -> M([o EXCEPT !.c = SetXY(o.c, n(2), n(3))])
            [] m \in PeekOps -> R(None))
       [] c = "sect" ->
         (CASE m = "new" -> R(SectMk(A[1], RMax(Z, n(2)), n(3), NormD(Deg(A[4])), NormD(Deg(A[5]))))
            [] m = "assign" -> M(SectMk(A[2], RMax(Z, n(3)), n(4), NormD(Deg(A[5])), NormD(Deg(A[6]))))
            [] m \in {"center", "center_"} -> R(o.c)
            [] m = "radius_min" -> Num(o.r0) [] m = "radius_max" -> Num(o.r1)
            [] m \in {"angle_left_start", "angle_left_start_"} -> R(AngV(o.s))
            [] m \in {"angle_right_end", "angle_right_end_"} -> R(AngV(o.e))
            [] m = "area" -> Num(PI (.) (Sq(o.r1) (-) Sq(o.r0)) (.) (Mod360(o.e (-) o.s) (/) D360))
            [] m = "get_circumference_min" -> Num(Two (.) PI (.) o.r0 (.) (Mod360(o.e (-) o.s) (/) D360))
            [] m = "get_circumference_max" -> Num(Two (.) PI (.) o.r1 (.) (Mod360(o.e (-) o.s) (/) D360))
            [] m = "eq" -> Bool(o = A[2])
            [] m = "live_center" -> M([o EXCEPT !.c = SetXY(o.c, n(2), n(3))])
            [] m = "live_start" -> M([o EXCEPT !.s = NormD(n(2))])
            [] m = "live_end" -> M([o EXCEPT !.e = NormD(n(2))])
            [] m \in PeekOps -> R(None))
       [] c = "size" ->
         (CASE m = "new0" -> R(ZMk(Z, Z))
            [] m = "new" -> R(ZMk(n(1), n(2)))
            [] m = "assign" -> M(ZMk(n(2), n(3)))
            [] m = "set_length" -> M(ZMk(n(2), o.w))
            [] m = "set_width" -> M(ZMk(o.l, n(2)))
            [] m = "length" -> Num(o.l) [] m = "width" -> Num(o.w)
            [] m = "diagonal" -> Num(RSqrt(Sq(o.l) (+) Sq(o.w)))
            [] m = "is_valid" -> Bool(o.l # Z /\ o.w # Z)
            [] m = "eq" -> Bool(o = A[2]))
       [] c = "rect" ->
         (CASE m = "new4" -> R(RectMk(n(1), n(2), RAbs(n(3)), RAbs(n(4))))
            [] m = "newVLW" -> R(RectMk(A[1].x, A[1].y, RAbs(n(2)), RAbs(n(3))))
            [] m = "newVS" -> R(RectMk(A[1].x, A[1].y, A[2].l, A[2].w))
            [] m = "newVV" -> R(Span(A[1].x, A[1].y, A[2].x, A[2].y))
            [] m = "newR" -> R(o)
            [] m = "assign4" -> S(RectMk(n(2), n(3), RAbs(n(4)), RAbs(n(5))))
            [] m = "assignVLW" -> S(RectMk(A[2].x, A[2].y, RAbs(n(3)), RAbs(n(4))))
            [] m = "assignVS" -> S(RectMk(A[2].x, A[2].y, A[3].l, A[3].w))
            [] m = "assignVV" -> S(Span(A[2].x, A[2].y, A[3].x, A[3].y))
            [] m = "assignR" -> S(A[2])
            [] m = "move_center" -> M(RectMk(A[2].x (-) (o.l (/) Two), A[2].y (-) (o.w (/) Two), o.l, o.w))
            [] m = "move_top_left" -> M(RectMk(A[2].x, A[2].y, o.l, o.w))
            [] m = "move_bottom_right" -> M(RectMk(A[2].x (-) o.l, A[2].y (-) o.w, o.l, o.w))
            [] m \in {"move_left", "move_min_x"} -> M(RectMk(n(2), o.y0, o.l, o.w))
            [] m \in {"move_right", "move_max_x"} -> M(RectMk(n(2) (-) o.l, o.y0, o.l, o.w))
            [] m \in {"move_top", "move_min_y"} -> M(RectMk(o.x0, n(2), o.l, o.w))
            [] m \in {"move_bottom", "move_max_y"} -> M(RectMk(o.x0, n(2) (-) o.w, o.l, o.w))
            [] m \in {"set_left", "set_min_x"} -> M(Span(n(2), o.y0, o.x1, o.y1))
            [] m \in {"set_right", "set_max_x"} -> M(Span(o.x0, o.y0, n(2), o.y1))
            [] m \in {"set_top", "set_min_y"} -> M(Span(o.x0, n(2), o.x1, o.y1))
            [] m \in {"set_bottom", "set_max_y"} -> M(Span(o.x0, o.y0, o.x1, n(2)))
            [] m = "set_top_left" -> LET p == Operand(A) IN S(Span(p.x, p.y, o.x1, o.y1))
            [] m = "set_bottom_right" -> LET p == Operand(A) IN S(Span(o.x0, o.y0, p.x, p.y))
            [] m = "set_length" -> M(RectMk(o.x0, o.y0, RAbs(n(2)), o.w))
            [] m = "set_width" -> M(RectMk(o.x0, o.y0, o.l, RAbs(n(2))))
            [] m = "set_size2" -> M(RectMk(o.x0, o.y0, RAbs(n(2)), RAbs(n(3))))
            [] m = "set_sizeS" -> M(RectMk(o.x0, o.y0, A[2].l, A[2].w))
            [] m = "live_top_left" -> M(RectMk(n(2), n(3), o.l, o.w))
            [] m = "live_size" -> M(RectMk(o.x0, o.y0, RAbs(n(2)), RAbs(n(3))))
            [] m = "is_valid" -> Bool(o.l # Z /\ o.w # Z)
            [] m = "area" -> Num(o.l (.) o.w)
            [] m \in {"left", "min_x"} -> Num(o.x0) [] m \in {"right", "max_x"} -> Num(o.x1)
            [] m \in {"top", "min_y"} -> Num(o.y0) [] m \in {"bottom", "max_y"} -> Num(o.y1)
            [] m \in {"size", "size_"} -> R(ZMk(o.l, o.w))
            [] m = "center" -> R(Vec((o.x0 (+) o.x1) (/) Two, (o.y0 (+) o.y1) (/) Two))
            [] m \in {"top_left", "top_left_"} -> R(Vec(o.x0, o.y0))
            [] m = "top_right" -> R(Vec(o.x1, o.y0))
            [] m = "bottom_left" -> R(Vec(o.x0, o.y1))
            [] m = "bottom_right" -> R(Vec(o.x1, o.y1))
            [] m = "left_edge" -> R(LineThrough(Vec(o.x0, o.y0), Vec(o.x0, o.y1)))
            [] m = "right_edge" -> R(LineThrough(Vec(o.x1, o.y0), Vec(o.x1, o.y1)))
            [] m = "top_edge" -> R(LineThrough(Vec(o.x0, o.y0), Vec(o.x1, o.y0)))
            [] m = "bottom_edge" -> R(LineThrough(Vec(o.x0, o.y1), Vec(o.x1, o.y1)))
            [] m = "contains" -> Bool(~(A[2].x \prec o.x0 \/ A[2].x \succ o.x1 \/ A[2].y \prec o.y0 \/ A[2].y \succ o.y1))
            [] m = "intersected" -> R(Overlap(o, A[2]))
            [] m = "united" -> R(Span(RMin(o.x0, A[2].x0), RMin(o.y0, A[2].y0), RMax(o.x1, A[2].x1), RMax(o.y1, A[2].y1)))
            [] m \in PeekOps -> R(None))
       [] c = "poly" ->
         (CASE m = "new0" -> R(PolyMk(<<Vec(Z, Z)>>))
            [] m = "newL" -> R(PolyMk(A[1].v))
            [] m = "clear" -> M(PolyMk(<<Vec(Z, Z)>>))
            [] m = "assign" -> S(IF A[2].v = <<>> THEN o ELSE PolyMk(A[2].v))
            [] m \in {"add_vertex", "live_vertices"} -> M(PolyMk(Append(o.v, A[2])))
            [] m \in {"vertices", "vertices_"} -> R(ListV(o.v))
            [] m = "get_bounding_box" -> R(IF o.v = <<>> THEN RectMk(Z, Z, Z, Z)
                                           ELSE Span(MinX(o.v), MinY(o.v), MaxX(o.v), MaxY(o.v)))
            [] m = "area" -> Num(RAbs(PArea2(o.v)) (/) Two)
            [] m = "double_signed_area" -> Num(PArea2(o.v))
            [] m = "is_clockwise" -> Bool(PArea2(o.v) \prec Z)
            [] m = "is_counter_clockwise" -> Bool(PArea2(o.v) \succ Z)
            [] m \in PeekOps -> R(None))
       [] c = "hull" ->
         (CASE m = "new" -> R(HullMk(A[1].v, <<>>, <<>>))
            [] m \in {"add_point", "live_inputs"} -> M([o EXCEPT !.i = Append(o.i, A[2])])
            [] m = "add_points" -> M([o EXCEPT !.i = o.i \o A[2].v])
            [] m = "clear" -> M(HullMk(<<>>, <<>>, <<>>))
            [] m = "clear_results" -> M(HullMk(o.i, <<>>, <<>>))
            [] m \in {"compute", "computeW", "computeG", "compute_wrapping_method", "compute_graham_scan"} -> M(Computed(o.i))
            [] m \in {"input_points", "input_points_"} -> R(ListV(o.i))
            [] m \in {"vertices", "vertices_"} -> R(ListV(o.v))
            [] m \in {"edges", "edges_"} -> R(ListV(o.e))
            [] m = "to_polygon" -> R(PolyMk(o.v))
            [] m \in PeekOps -> R(None))
       [] c = "mat" ->
         (CASE m = "new0" -> R(MId)
            [] m = "new6" -> R(MMk(n(1), n(2), n(3), n(4), n(5), n(6)))
            [] m = "reset" -> M(MId)
            [] m = "assign" -> M(MMk(n(2), n(3), n(4), n(5), n(6), n(7)))
            [] m = "m11" -> Num(o.a) [] m = "m12" -> Num(o.b) [] m = "m21" -> Num(o.c) [] m = "m22" -> Num(o.d)
            [] m = "dxtf" -> Num(o.x) [] m = "dytf" -> Num(o.y)
            [] m = "det" -> Num((o.a (.) o.d) (-) (o.b (.) o.c))
            [] m = "invertible" -> Bool((o.a (.) o.d) # (o.b (.) o.c))
            [] m = "inverted" -> R(IF MDet(o) = Z THEN MId
                                   ELSE LET k == One (/) MDet(o)
                                        IN MMk(o.d (.) k, RNeg(o.b (.) k), RNeg(o.c (.) k), o.a (.) k,
                                               ((o.b (.) o.y) (-) (o.d (.) o.x)) (.) k,
                                               ((o.c (.) o.x) (-) (o.a (.) o.y)) (.) k))
            [] m = "translate" -> M([o EXCEPT !.x = o.x (+) n(2), !.y = o.y (+) n(3)])
            [] m = "scale" -> M(MMk(o.a (.) n(2), o.b (.) n(2), o.c (.) n(3), o.d (.) n(3), o.x (.) n(2), o.y (.) n(3)))
            [] m = "rotate" -> LET q == Turned(Vec(o.a, o.c), Deg(A[2])) s == Turned(Vec(o.b, o.d), Deg(A[2]))
                                   v == Turned(Vec(o.x, o.y), Deg(A[2]))
                               IN M(MMk(q.x, s.x, q.y, s.y, v.x, v.y))
            [] m \in {"transformV", "mulV"} -> R(MApply(o, A[2]))
            [] m = "transformXY" -> R(MApply(o, Vec(n(2), n(3))))
            [] m = "transform_vec" -> LET q == MApply(o, A[2]) v == [A[2] EXCEPT !.x = q.x, !.y = q.y]
                                      IN [r |-> v, p |-> [A EXCEPT ![2] = v]]
            [] m = "mulM" -> R(MComp(o, A[2]))
            [] m = "imul" -> S(MComp(o, A[2]))
            [] m = "eq" -> Bool(o = A[2]))
=============================================================================
