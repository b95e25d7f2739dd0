-------------------------------- MODULE Fig --------------------------------
(***************************************************************************)
(* Functional reference semantics of the queries between figures, in a     *)
(* formulation of its own: figures are parametrised (o + t w), directions   *)
(* are eighths of a turn, interiors are decided by areas or by parity along *)
(* the other axis, series are summed in closed form.  MC_Enum checks by     *)
(* exhaustive enumeration that the relational specification (modules J...)  *)
(* accepts exactly these results.                                          *)
(***************************************************************************)
EXTENDS Fun

In01(x) == Z \preceq x /\ x \preceq One
Between(x, lo, hi) == lo \preceq x /\ x \preceq hi
Clamp01(x) == RMin(RMax(x, Z), One)
Pt(o, w, t) == VAdd(o, VMul(w, t))

\* --- directions: eighths of a turn ---------------------------------------------
Eighths(deg) == RToInt(Mod360(deg) (/) RInt(45))
DirVec(deg) == LET q == Eighths(deg) one == RInt(1) neg == RInt(-1)
               IN CASE q = 0 -> Vec(one, Z)   [] q = 1 -> Vec(one, one) [] q = 2 -> Vec(Z, one)
                    [] q = 3 -> Vec(neg, one) [] q = 4 -> Vec(neg, Z)   [] q = 5 -> Vec(neg, neg)
                    [] q = 6 -> Vec(Z, neg)   [] q = 7 -> Vec(one, neg)
Compass(w) == LET s == <<RSgn(w.x), RSgn(w.y)>>
              IN CASE s = <<1, 0>> -> 0  [] s = <<1, 1>> -> 45   [] s = <<0, 1>> -> 90   [] s = <<-1, 1>> -> 135
                   [] s = <<-1, 0>> -> 180 [] s = <<-1, -1>> -> -135 [] s = <<0, -1>> -> -90 [] s = <<1, -1>> -> -45
                   [] OTHER -> 0
OnCompass(w) == w.x = Z \/ w.y = Z \/ RAbs(w.x) = RAbs(w.y)
\* integer arithmetic on whole degrees
IMod(x) == x % 360
ITurn(x, y) == (y - x) % 360
IDeg(v) == RToInt(Deg(v))

\* cosine at multiples of 30 and 45 degrees
Root2h == RSqrt(Half)
Root3h == RSqrt(RFrac(3, 4))
CosTab(d) == LET k == IMod(d) f == IF k > 180 THEN 360 - k ELSE k s == IF f > 90 THEN 180 - f ELSE f
                 v == CASE s = 0 -> One [] s = 30 -> Root3h [] s = 45 -> Root2h [] s = 60 -> Half [] s = 90 -> Z
             IN IF f > 90 THEN RNeg(v) ELSE v
SinTab(d) == CosTab(d - 90)

\* --- lines as point and direction -------------------------------------------------
LOrg(l) == VMul(Vec(l.a, l.b), RNeg(l.c) (/) (Sq(l.a) (+) Sq(l.b)))
LDir(l) == Vec(RNeg(l.b), l.a)
\* o + t w = p + u z
Solve(o, w, p, z) == LET d == Cross(w, z) k == VSub(p, o) IN <<Cross(k, z) (/) d, Cross(k, w) (/) d>>
MkLine(o, w) == LMk(RNeg(w.y), w.x, (w.y (.) o.x) (-) (w.x (.) o.y))

\* --- segments ----------------------------------------------------------------------
W(s) == VSub(s.e, s.o)
Dist2To(s, p) == LET w == W(s) n == N2(w)
                 IN IF n = Z THEN D2(s.o, p) ELSE D2(Pt(s.o, w, Clamp01(Dot(w, VSub(p, s.o)) (/) n)), p)
FCommon(s, u) ==
    LET w == W(s) z == W(u) k == VSub(u.o, s.o)
    IN IF Cross(w, z) # Z THEN LET x == Solve(s.o, w, u.o, z) IN In01(x[1]) /\ In01(x[2])
       ELSE IF Cross(w, k) # Z \/ Cross(z, k) # Z THEN FALSE
       ELSE LET d == IF N2(w) # Z THEN w ELSE IF N2(z) # Z THEN z ELSE k        \* all on one line
                a == Dot(d, s.o) b == Dot(d, s.e) c == Dot(d, u.o) e == Dot(d, u.e)
            IN IF N2(d) = Z THEN TRUE ELSE RMax(RMin(a, b), RMin(c, e)) \preceq RMin(RMax(a, b), RMax(c, e))
FProper(s, u) == LET w == W(s) z == W(u)
                 IN Cross(w, z) # Z /\ LET x == Solve(s.o, w, u.o, z)
                                       IN Z \prec x[1] /\ x[1] \prec One /\ Z \prec x[2] /\ x[2] \prec One
FSegSeg(s, u, ends) == LET w == W(s) z == W(u)
                       IN IF Cross(w, z) = Z THEN Inv
                          ELSE LET x == Solve(s.o, w, u.o, z)
                               IN IF In01(x[1]) /\ In01(x[2]) /\ (ends \/ FProper(s, u)) THEN Pt(s.o, w, x[1]) ELSE Inv
FSegSegDist(s, u) == IF FCommon(s, u) THEN Z
                     ELSE RSqrt(RMin(RMin(Dist2To(s, u.o), Dist2To(s, u.e)), RMin(Dist2To(u, s.o), Dist2To(u, s.e))))

\* --- crossings with an outline ---------------------------------------------------------
RECURSIVE Outline(_, _, _, _, _)
Outline(vs, o, w, ok(_), i) ==
    IF i > Len(vs) THEN <<>>
    ELSE LET p == vs[i] z == VSub(vs[Nxt(i, Len(vs))], p)
         IN (IF Cross(w, z) = Z THEN <<>>
             ELSE LET x == Solve(o, w, p, z)
                  IN IF In01(x[2]) /\ ok(x[1]) THEN <<Pt(o, w, x[1])>> ELSE <<>>) \o Outline(vs, o, w, ok, i + 1)
FHits(vs, o, w, ok(_)) == Removed(TLCEval(Outline(vs, o, w, ok, 1)), <<>>)
AnyT(t) == TRUE
Fwd(t) == t \succ Z
HitsOf(vs, f) == CASE f.t = "line" -> FHits(vs, LOrg(f), LDir(f), AnyT)
                   [] f.t = "ray" -> FHits(vs, f.o, DirVec(f.d), Fwd)
                   [] f.t = "seg" -> FHits(vs, f.o, W(f), In01)
Counted(pts) == ListV(<<NumV(RInt(Len(pts)))>> \o pts)

\* --- circles: |o + t w - c|^2 = r^2 ------------------------------------------------------
FChord(c, o, w, ok(_)) ==
    LET k == VSub(o, c.c) a == N2(w) b == Dot(w, k) q == N2(k) (-) Sq(c.r)
        d == Sq(b) (-) (a (.) q)
        h == RSqrt(d)
        ts == IF RSgn(d) < 0 THEN <<>> ELSE IF d = Z THEN <<RNeg(b) (/) a>> ELSE <<(RNeg(b) (+) h) (/) a, (RNeg(b) (-) h) (/) a>>
        keep == SelectSeq(ts, ok)
    IN [i \in 1..Len(keep) |-> Pt(o, w, keep[i])]
ChordOf(c, f) == CASE f.t = "line" -> FChord(c, LOrg(f), LDir(f), AnyT)
                   [] f.t = "ray" -> FChord(c, f.o, DirVec(f.d), Fwd)
                   [] f.t = "seg" -> FChord(c, f.o, W(f), In01)
                   [] f.t = "circ" ->
                        LET w == VSub(f.c, c.c) q == N2(w)
                            x == ((q (+) Sq(c.r)) (-) Sq(f.r)) (/) (Two (.) q)
                            h2 == (Sq(c.r) (/) q) (-) Sq(x)
                            n == Vec(RNeg(w.y), w.x)
                            m == Pt(c.c, w, x)
                        IN IF q = Z \/ RSgn(h2) < 0 THEN <<>>
                           ELSE IF h2 = Z THEN <<m>>
                           ELSE <<Pt(m, n, RSqrt(h2)), Pt(m, n, RNeg(RSqrt(h2)))>>
\* in-circle determinant
InCircum(p, k) ==
    LET a == VSub(k.a, p) b == VSub(k.b, p) c == VSub(k.c, p)
        d == ((N2(a) (.) Cross(b, c)) (-) (N2(b) (.) Cross(a, c))) (+) (N2(c) (.) Cross(a, b))
    IN RSgn(d) * RSgn(TArea2(k)) > 0

\* --- two linear equations  u . x = f,  v . x = g ------------------------------------------
Cramer(u, f, v, g) == LET d == Cross(u, v)
                      IN Vec(((f (.) v.y) (-) (g (.) u.y)) (/) d, ((u.x (.) g) (-) (v.x (.) f)) (/) d)
FCircumcentre(k) == LET u == VSub(k.b, k.a) v == VSub(k.c, k.a)
                    IN Cramer(u, (N2(k.b) (-) N2(k.a)) (/) Two, v, (N2(k.c) (-) N2(k.a)) (/) Two)
FOrthocentre(k) == LET u == VSub(k.c, k.b) v == VSub(k.a, k.c) IN Cramer(u, Dot(u, k.a), v, Dot(v, k.b))
FCentre(m, k) == CASE m = "centroid" -> Vec((k.a.x (+) k.b.x (+) k.c.x) (/) RInt(3), (k.a.y (+) k.b.y (+) k.c.y) (/) RInt(3))
                   [] m = "circumcenter" -> IF TArea2(k) = Z THEN Inv ELSE FCircumcentre(k)
                   [] m = "orthocenter" -> IF TArea2(k) = Z THEN Inv ELSE FOrthocentre(k)
                   [] m = "incenter" -> IF TArea2(k) = Z THEN Inv ELSE Incentre(k)
FInside(k, p) == (RAbs(Area2(p, k.a, k.b)) (+) RAbs(Area2(p, k.b, k.c)) (+) RAbs(Area2(p, k.c, k.a))) = RAbs(TArea2(k))

\* --- polygons: parity of crossings above p ---------------------------------------------------
Above(p, a, b) ==
    /\ (RLe(a.x, p.x) /\ RLt(p.x, b.x)) \/ (RLe(b.x, p.x) /\ RLt(p.x, a.x))
    /\ RLt(p.y, a.y (+) (((p.x (-) a.x) (.) (b.y (-) a.y)) (/) (b.x (-) a.x)))
RECURSIVE MinD2(_, _, _)
MinD2(v, p, i) == LET d == Dist2To(SMk(v[i], v[Nxt(i, Len(v))]), p) IN IF i = 1 THEN d ELSE RMin(d, MinD2(v, p, i - 1))
FPolyIn(v, p, on) == IF v = <<>> THEN FALSE
                     ELSE IF MinD2(v, p, Len(v)) = Z THEN on
                     ELSE Cardinality({i \in 1..Len(v) : Above(p, v[i], v[Nxt(i, Len(v))])}) % 2 = 1

\* --- numbers ------------------------------------------------------------------------------------
Nearest2(x) == LET a == RFloor(x) b == a (+) One
               IN IF RAbs(x (-) a) \prec RAbs(x (-) b) THEN a
                  ELSE IF RAbs(x (-) b) \prec RAbs(x (-) a) THEN b
                  ELSE IF RAbs(a) \succ RAbs(b) THEN a ELSE b
RECURSIVE RPow(_, _), Steps(_, _, _)
RPow(q, n) == IF n = 0 THEN One ELSE q (.) RPow(q, n - 1)
Series(f, q, n) == (f (.) (One (-) RPow(q, n))) (/) (One (-) q)
Steps(a, b, st) == IF (RSgn(st) > 0 /\ a \succeq b) \/ (RSgn(st) < 0 /\ a \preceq b) THEN <<>>
                   ELSE <<NumV(a)>> \o Steps(a (+) st, b, st)

\* --- the table -------------------------------------------------------------------------------------
Fig(c, m, A) ==
    LET o == A[1]
        n(i) == A[i].v
        NN(i) == RToInt(A[i].v)
    IN CASE c = "ang" ->
         (LET x == IDeg(o) y == IDeg(A[2]) IN
          CASE m = "is_left_of" -> BoolV(ITurn(x, y) \in 1..179)
            [] m = "is_right_of" -> BoolV(ITurn(y, x) \in 1..179)
            [] m = "is_left_equal_of" -> BoolV(ITurn(x, y) \in 0..179)
            [] m = "is_right_equal_of" -> BoolV(ITurn(y, x) \in 0..179)
            [] m = "is_within" -> LET e == IDeg(A[3]) IN BoolV(\E k \in 0..ITurn(y, e) : IMod(y + k) = IMod(x))
            [] m = "bisect" -> LET t == ITurn(y, x) IN AngV(NormD(RInt(y) (+) RFrac(t, 2)))
            [] m = "cos" -> NumV(CosTab(x))
            [] m = "sin" -> NumV(SinTab(x))
            [] m = "cos_deg" -> NumV(CosTab(x))
            [] m = "sin_deg" -> NumV(SinTab(x))
            [] m = "normalize_angle" -> NumV(NormD(n(1)))
            [] m = "atan2_deg" -> NumV(RInt(Compass(Vec(n(2), n(1))))))
       [] c = "vec" ->
         (CASE m \in {"th", "dir"} -> AngV(RInt(Compass(o)))
            [] m \in {"normalize_vector"} -> VMul(o, One (/) Norm(o))
            [] m = "set_length_vector" -> VMul(o, n(2) (/) Norm(o)))
       [] c = "line" ->
         (CASE m = "get_x" -> NumV(IF o.a = Z THEN Big20 ELSE RNeg((o.b (.) n(2)) (+) o.c) (/) o.a)
            [] m = "get_y" -> NumV(IF o.b = Z THEN Big20 ELSE RNeg((o.a (.) n(2)) (+) o.c) (/) o.b)
            [] m = "dist" -> NumV(RAbs(Cross(LDir(o), VSub(A[2], LOrg(o)))) (/) Norm(LDir(o)))
            [] m = "dist2" -> NumV(Sq(Cross(LDir(o), VSub(A[2], LOrg(o)))) (/) N2(LDir(o)))
            [] m = "is_parallel" -> BoolV(Cross(LDir(o), LDir(A[2])) = Z)
            [] m \in {"intersection", "line_intersection"} ->
                 IF Cross(LDir(o), LDir(A[2])) = Z THEN Inv
                 ELSE Pt(LOrg(o), LDir(o), Solve(LOrg(o), LDir(o), LOrg(A[2]), LDir(A[2]))[1])
            [] m = "perpendicular" -> MkLine(A[2], Vec(o.a, o.b))
            [] m = "projection" -> LET w == LDir(o) IN Pt(LOrg(o), w, Dot(w, VSub(A[2], LOrg(o))) (/) N2(w))
            [] m = "perpendicular_bisector" -> LET w == VSub(A[2], A[1]) IN LMk(w.x, w.y, (N2(A[1]) (-) N2(A[2])) (/) Two)
            [] m \in {"newPA", "newpa"} -> MkLine(A[1], DirVec(Deg(A[2])))
            [] m = "angle_bisector" -> MkLine(A[1], DirVec((Deg(A[2]) (+) Deg(A[3])) (/) Two))
            [] m = "eq" -> BoolV(LET z == A[2] IN /\ (o.a (.) z.b) = (o.b (.) z.a) /\ (o.a (.) z.c) = (o.c (.) z.a)
                                                  /\ (o.b (.) z.c) = (o.c (.) z.b)))
       [] c = "ray" ->
         (CASE m = "line" -> MkLine(o.o, DirVec(o.d))
            [] m = "newV" -> [t |-> "ray", o |-> A[1], d |-> RInt(Compass(VSub(A[2], A[1])))]
            [] m = "in_right_dir" ->
                 LET w == VSub(A[2], o.o) u == DirVec(o.d)        \* tangent of 10 degrees, squared
                 IN BoolV(Dot(u, w) \succ Z /\ Sq(Cross(u, w)) \prec (RFrac(31091, 1000000) (.) Sq(Dot(u, w))))
            [] m \in {"intersectionL", "intersectionR"} ->
                 LET w == DirVec(o.d)
                     p == IF m = "intersectionL" THEN LOrg(A[2]) ELSE A[2].o
                     z == IF m = "intersectionL" THEN LDir(A[2]) ELSE DirVec(A[2].d)
                 IN IF Cross(w, z) = Z THEN Inv
                    ELSE LET x == Solve(o.o, w, p, z)
                         IN IF x[1] \succ Z /\ (m = "intersectionL" \/ x[2] \succ Z) THEN Pt(o.o, w, x[1]) ELSE Inv)
       [] c = "seg" ->
         (CASE m = "exist_intersectionS" -> BoolV(FCommon(o, A[2]))
            [] m \in {"exist_intersection_except_endpoint", "intersects_except_endpoint"} -> BoolV(FProper(o, A[2]))
            [] m = "intersectionS" -> FSegSeg(o, A[2], Len(A) = 3 /\ A[3].v)
            [] m = "distS" -> NumV(FSegSegDist(o, A[2]))
            [] m = "exist_intersectionL" ->
                 LET z == LDir(A[2]) p == LOrg(A[2]) a == Cross(z, VSub(o.o, p)) b == Cross(z, VSub(o.e, p))
                 IN BoolV(RMin(a, b) \preceq Z /\ Z \preceq RMax(a, b))
            [] m = "intersectionL" ->
                 LET z == LDir(A[2]) w == W(o)
                 IN IF Cross(w, z) = Z THEN Inv
                    ELSE LET x == Solve(o.o, w, LOrg(A[2]), z) IN IF In01(x[1]) THEN Pt(o.o, w, x[1]) ELSE Inv
            [] m = "contains" -> BoolV(/\ Between(A[2].x, RMin(o.o.x, o.e.x), RMax(o.o.x, o.e.x))
                                       /\ Between(A[2].y, RMin(o.o.y, o.e.y), RMax(o.o.y, o.e.y)))
            [] m = "nearest_point" -> LET w == W(o) k == N2(w)
                                      IN IF k = Z THEN Vec(o.o.x, o.o.y)
                                         ELSE Pt(o.o, w, Clamp01(Dot(w, VSub(A[2], o.o)) (/) k))
            [] m = "distP" -> NumV(RSqrt(Dist2To(o, A[2])))
            [] m = "farthest_dist" -> NumV(RSqrt(RMax(D2(o.o, A[2]), D2(o.e, A[2]))))
            [] m = "projection" -> LET w == W(o) k == N2(w) x == Dot(w, VSub(A[2], o.o)) (/) k
                                   IN IF k = Z THEN Vec(o.o.x, o.o.y) ELSE IF In01(x) THEN Pt(o.o, w, x) ELSE Inv
            [] m \in {"on_segment", "on_segment_weakly"} -> BoolV(Dist2To(o, A[2]) = Z)
            [] m = "direction" -> AngV(RInt(Compass(W(o))))
            [] m = "perpendicular_bisector" -> LET w == W(o) IN LMk(w.x, w.y, (N2(o.o) (-) N2(o.e)) (/) Two))
       [] c = "tri" ->
         (LET st == TMk(A[1], A[2], A[3]) vs == <<o.a, o.b, o.c>> IN
          CASE m = "contains" -> BoolV(FInside(o, A[2]))
            [] m = "tri_contains" -> BoolV(FInside(st, A[4]))
            [] m \in {"centroid", "circumcenter", "orthocenter", "incenter"} -> FCentre(m, o)
            [] m = "tri_centroid" -> FCentre("centroid", st) [] m = "tri_circumcenter" -> FCentre("circumcenter", st)
            [] m = "tri_orthocenter" -> FCentre("orthocenter", st) [] m = "tri_incenter" -> FCentre("incenter", st)
            [] m = "signed_area_st" -> NumV(((A[1].x (.) (A[2].y (-) A[3].y)) (+) (A[2].x (.) (A[3].y (-) A[1].y))
                                             (+) (A[3].x (.) (A[1].y (-) A[2].y))) (/) Two)
            [] m = "double_signed_area_st" -> NumV((A[1].x (.) (A[2].y (-) A[3].y)) (+) (A[2].x (.) (A[3].y (-) A[1].y))
                                                   (+) (A[3].x (.) (A[1].y (-) A[2].y)))
            [] m = "tri_ccw" -> BoolV(RSgn(Area2(A[3], A[1], A[2])) > 0)
            [] m \in {"intersectionL", "intersectionR", "intersectionS"} -> Counted(HitsOf(vs, A[2])))
       [] c = "circ" ->
         (LET st == TMk(A[1], A[2], A[3]) IN
          CASE m = "contains" -> BoolV(Dist(o.c, A[2]) \prec o.r)
            [] m \in {"intersectionL", "intersectionR", "intersectionS", "intersectionC", "intersection_with_line",
                      "intersection_with_ray", "intersection_with_segment", "intersection_with_circle"} -> ListV(ChordOf(o, A[2]))
            [] m = "circum_circle" -> IF TArea2(st) = Z THEN CMk(Vec(Z, Z), Z)
                                      ELSE CMk(FCircumcentre(st), Dist(FCircumcentre(st), A[2]))
            [] m = "circum_circle_contains" -> BoolV(InCircum(A[1], TMk(A[2], A[3], A[4])))
            [] m = "quadratic_f" ->
                 LET h == RNeg(n(2)) (/) (Two (.) n(1)) q == Sq(h) (-) (n(3) (/) n(1))
                 IN IF n(1) = Z THEN [t |-> "exc", n |-> "ZeroDivisionError"]
                    ELSE IF RSgn(q) < 0 THEN ListV(<<>>) ELSE ListV(<<NumV(h (+) RSqrt(q)), NumV(h (-) RSqrt(q))>>))
       [] c = "sect" ->
         (CASE m = "contains" ->
                 LET w == VSub(A[2], o.c) s == RToInt(o.s) e == RToInt(o.e)
                 IN BoolV(/\ N2(w) \succeq Sq(o.r0) /\ N2(w) \preceq Sq(o.r1)
                          /\ ITurn(s, Compass(w)) <= ITurn(s, e)))
       [] c = "rect" ->
         (LET vs == <<Vec(o.x0, o.y0), Vec(o.x1, o.y0), Vec(o.x1, o.y1), Vec(o.x0, o.y1)>> IN
          CASE m \in {"intersectionL", "intersectionR", "intersectionS"} -> ListV(HitsOf(vs, A[2]))
            [] m = "contains_almost" -> LET e == n(3) IN
                 BoolV(Between(A[2].x, o.x0 (-) e, o.x1 (+) e) /\ Between(A[2].y, o.y0 (-) e, o.y1 (+) e))
            [] m = "from_center4" -> RectMk(n(1) (-) (n(3) (/) Two), n(2) (-) (n(4) (/) Two), n(3), n(4))
            [] m = "from_centerV" -> RectMk(A[1].x (-) (n(2) (/) Two), A[1].y (-) (n(3) (/) Two), n(2), n(3)))
       [] c = "poly" ->
         (CASE m = "contains" -> BoolV(FPolyIn(o.v, A[2], IF Len(A) = 3 THEN A[3].v ELSE TRUE))
            [] m = "dist" -> LET whole == IF Len(A) = 3 THEN A[3].v ELSE TRUE
                             IN NumV(IF whole /\ Len(o.v) > 1 /\ FPolyIn(o.v, A[2], TRUE) THEN Z
                                     ELSE RSqrt(MinD2(o.v, A[2], Len(o.v))))
            [] m = "bounding_box_center" -> Vec((MinX(o.v) (+) MaxX(o.v)) (/) Two, (MinY(o.v) (+) MaxY(o.v)) (/) Two)
            [] m = "get_rectangle_clipped_polygon" -> PolyMk(Clip(o.v, A[2]))
            [] m \in ClipHalfOps -> ListV(HalfClip(m, o.v, n(2)))
            [] m \in SideOps -> BoolV(CASE m = "side_x_le" -> A[2].x \preceq n(1) [] m = "side_x_ge" -> A[2].x \succeq n(1)
                                        [] m = "side_y_le" -> A[2].y \preceq n(1) [] m = "side_y_ge" -> A[2].y \succeq n(1)))
       [] c = "hull" ->
         (CASE m = "get_min_point_index" ->
                 NumV(IF o.i = <<>> THEN RInt(-1)
                      ELSE RInt((CHOOSE k \in 1..Len(o.i) :
                                   \A j \in 1..Len(o.i) :
                                      LET u == VSub(o.i[j], o.i[k])
                                      IN RSgn(u.x) > 0 \/ (RSgn(u.x) = 0 /\ RSgn(u.y) >= 0)) - 1))
            [] m = "sorted_from_min" ->
                 LET u == TLCEval(Removed(o.i, <<>>))
                     b == u[CHOOSE j \in 1..Len(u) : \A k \in 1..Len(u) :
                              LET w == VSub(u[k], u[j]) IN RSgn(w.x) > 0 \/ (RSgn(w.x) = 0 /\ RSgn(w.y) >= 0)]
                     Less(p, q) == /\ ~Same(p, q) /\ ~Same(q, b)
                                   /\ (Same(p, b) \/ RSgn(Area2(b, p, q)) > 0
                                       \/ (Area2(b, p, q) = Z /\ RSgn(D2(b, p) (-) D2(b, q)) < 0))
                     Rank(p) == Cardinality({k \in 1..Len(u) : Less(u[k], p)})
                 IN ListV([i \in 1..Len(u) |-> u[CHOOSE k \in 1..Len(u) : Rank(u[k]) = i - 1]])
            [] m = "is_clockwise" -> BoolV(RSgn(Area2(A[3], A[2], A[1])) > 0)
            [] m = "list2set" -> ListV(Removed(A[1].v, <<>>)))
       [] c = "mat" ->
         (CASE m = "make_translation" -> MMk(One, Z, Z, One, n(1), n(2))
            [] m = "make_scaling" -> MMk(n(1), Z, Z, n(2), Z, Z)
            [] m = "make_rotation" -> LET u == Turned(Vec(One, Z), o.d) IN MMk(u.x, RNeg(u.y), u.y, u.x, Z, Z))
       [] c = "soc" ->
         (CASE m = "inertia_n_step_travel" -> VMul(A[1], Series(One, n(3), NN(2)))
            [] m = "inertia_n_step_point" -> VAdd(A[1], VMul(A[2], Series(One, n(4), NN(3))))
            [] m = "inertia_n_step_distance" -> NumV(Series(n(1), n(3), NN(2)))
            [] m = "inertia_final_travel" -> VMul(A[1], One (/) (One (-) n(2)))
            [] m = "inertia_final_point" -> VAdd(A[1], VMul(A[2], One (/) (One (-) n(3))))
            [] m = "inertia_final_distance" -> NumV(n(1) (/) (One (-) n(2)))
            [] m = "calc_length_geom_series" ->                    \* the number of terms that reach the sum
                 IF n(1) \preceq Z \/ n(2) \prec Z \/ n(3) \preceq Z THEN NumV(RInt(-1))
                 ELSE IF n(2) = Z THEN NumV(Z)
                 ELSE IF \E k \in 1..12 : Series(n(1), n(3), k) = n(2)
                      THEN NumV(RInt(CHOOSE k \in 1..12 : Series(n(1), n(3), k) = n(2)))
                 ELSE NumV(RInt(-1))
            [] m = "calc_first_term_geom_series" -> NumV(n(1) (/) Series(One, n(2), NN(3)))
            [] m = "r_int" -> NumV(Nearest2(n(1)))
            [] m = "quantize" -> NumV(Nearest2(n(1) (/) n(2)) (.) n(2))
            [] m = "unquantize_min" -> NumV((Nearest2(n(1) (/) n(2)) (.) n(2)) (-) (n(2) (/) Two))
            [] m = "unquantize_max" -> NumV((Nearest2(n(1) (/) n(2)) (.) n(2)) (+) (n(2) (/) Two))
            [] m \in {"bound", "min_max"} -> NumV(IF n(2) \prec n(1) THEN n(1) ELSE IF n(2) \succ n(3) THEN n(3) ELSE n(2))
            [] m = "f_range1" -> ListV(Steps(Z, n(1), One))
            [] m = "f_range2" -> ListV(Steps(n(1), n(2), One))
            [] m = "f_range3" -> ListV(Steps(n(1), n(2), n(3)))
            [] m = "dir_rate" ->           \* linear from 1 (ahead) to side (90) and on to back (180)
                 LET x == RAbs(n(1)) (/) D90
                 IN NumV(IF x \preceq One THEN (One (-) x) (+) (x (.) n(3))
                         ELSE ((Two (-) x) (.) n(3)) (+) ((x (-) One) (.) n(2)))
            [] m = "effective_turn" -> NumV(n(1) (/) (One (+) (n(2) (.) n(3))))
            [] m = "final_speed" -> NumV((RAbs(n(1)) (.) n(2) (.) n(3)) (/) (One (-) n(4)))
            [] m = "can_over_speed_max" -> BoolV(((RAbs(n(1)) (.) n(2) (.) n(3)) (/) (One (-) n(4))) \succ n(5))
            [] m = "kick_rate" -> NumV(n(3) (.) (One (-) (RFrac(1, 4) (.) ((RAbs(n(2)) (/) D180)
                                                                           (+) ((n(1) (-) n(4) (-) n(5)) (/) n(6)))))))

\* which of the two tables defines a method
FigOps == [ang |-> {"is_left_of", "is_right_of", "is_left_equal_of", "is_right_equal_of", "is_within", "bisect", "cos", "sin",
                    "cos_deg", "sin_deg", "normalize_angle", "atan2_deg"},
           vec |-> {"th", "dir", "normalize_vector", "set_length_vector"},
           line |-> {"get_x", "get_y", "dist", "dist2", "is_parallel", "intersection", "line_intersection", "perpendicular",
                     "projection", "perpendicular_bisector", "newPA", "newpa", "angle_bisector", "eq"},
           ray |-> {"line", "newV", "in_right_dir", "intersectionL", "intersectionR"},
           seg |-> {"exist_intersectionS", "exist_intersection_except_endpoint", "intersects_except_endpoint", "intersectionS",
                    "distS", "exist_intersectionL", "intersectionL", "contains", "nearest_point", "distP", "farthest_dist",
                    "projection", "on_segment", "on_segment_weakly", "direction", "perpendicular_bisector"},
           tri |-> {"contains", "tri_contains", "centroid", "circumcenter", "orthocenter", "incenter", "tri_centroid",
                    "tri_circumcenter", "tri_orthocenter", "tri_incenter", "signed_area_st", "double_signed_area_st", "tri_ccw",
                    "intersectionL", "intersectionR", "intersectionS"},
           circ |-> {"contains", "intersectionL", "intersectionR", "intersectionS", "intersectionC", "intersection_with_line",
                     "intersection_with_ray", "intersection_with_segment", "intersection_with_circle", "circum_circle",
                     "circum_circle_contains", "quadratic_f"},
           sect |-> {"contains"}, size |-> {},
           rect |-> {"intersectionL", "intersectionR", "intersectionS", "contains_almost", "from_center4", "from_centerV"},
           poly |-> {"contains", "dist", "bounding_box_center", "get_rectangle_clipped_polygon"} \cup ClipHalfOps \cup SideOps,
           hull |-> {"get_min_point_index", "sorted_from_min", "is_clockwise", "list2set"},
           mat |-> {"make_translation", "make_scaling", "make_rotation"},
           soc |-> {"inertia_n_step_travel", "inertia_n_step_point", "inertia_n_step_distance", "inertia_final_travel",
                    "inertia_final_point", "inertia_final_distance", "calc_length_geom_series", "calc_first_term_geom_series",
                    "r_int", "quantize", "unquantize_min", "unquantize_max", "bound", "min_max", "f_range1", "f_range2",
                    "f_range3", "dir_rate", "effective_turn", "final_speed", "can_over_speed_max", "kick_rate"}]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE (IF s[1].t = "vec" THEN <<NumV(s[1].x), NumV(s[1].y)>> ELSE Flat(<<s[1].o, s[1].e>>)) \o Flat(Tail(s))
TextOut(m, o) ==
    ListV(LET q(x) == <<NumV(x)>> IN
          CASE o.t = "ang" -> q(o.d) [] o.t = "vec" -> Flat(<<o>>) [] o.t = "seg" -> Flat(<<o>>)
            [] o.t = "line" -> q(o.a) \o q(o.b) \o (IF o.c = Z THEN <<>> ELSE q(o.c)) \o q(Z)
            [] o.t = "ray" -> Flat(<<o.o>>) \o q(o.d) [] o.t = "tri" -> Flat(<<o.a, o.b, o.c>>)
            [] o.t = "circ" -> Flat(<<o.c>>) \o q(o.r) [] o.t = "size" -> q(o.l) \o q(o.w)
            [] o.t = "sect" -> Flat(<<o.c>>) \o q(o.s) \o q(o.e) \o q(o.r0) \o q(o.r1)
            [] o.t = "rect" -> q(o.x0) \o q(o.y0) \o (IF m = "to_str" THEN q(o.x1) \o q(o.y1) ELSE q(o.l) \o q(o.w))
            [] o.t = "mat" -> q(o.a) \o q(o.b) \o q(o.c) \o q(o.d) \o q(o.x) \o q(o.y)
            [] o.t = "poly" -> Flat(o.v) [] o.t = "hull" -> Flat(o.v) \o Flat(o.e))
Outcome(c, m, A) == IF m \in TextOps THEN [r |-> TextOut(m, A[1]), p |-> A]
                    ELSE IF m \in FigOps[c] THEN [r |-> Fig(c, m, A), p |-> A] ELSE Fn(c, m, A)
=============================================================================
