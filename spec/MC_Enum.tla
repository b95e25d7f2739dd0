------------------------------ MODULE MC_Enum ------------------------------
(***************************************************************************)
(* All small inputs.  A behaviour picks the values of an input tuple one    *)
(* after the other from the slots of the scenario; on every complete tuple  *)
(* Calls lists the public calls to be made with it.  TLC visits every tuple *)
(* and checks that the two semantics agree on every call (Agree), and       *)
(* prints the calls; the harness makes them on the implementation, where    *)
(* Trace.tla judges the outcome.                                           *)
(***************************************************************************)
EXTENDS Agree, Json, IOUtils

Scen == IOEnv.SCEN
Deep == IOEnv.MC_TIER = "thorough"

\* --- literals ------------------------------------------------------------------
Sq2(lo, hi) == {P2(x, y) : x \in lo..hi, y \in lo..hi}
Pts9 == Sq2(0, 2)
Pts12 == {P2(x, y) : x \in 0..3, y \in 0..2}
Wide == Sq2(-1, 3)
Mid == Sq2(-2, 2)
Cross9 == {P2(x, y) : x \in {-1, 1, 3}, y \in {-1, 1, 3}}
Degs8 == {AngV(I(45 * k)) : k \in -3..4}
Degs4 == {AngV(I(90 * k)) : k \in -1..2}
Seam == {AngV(I(k)) : k \in {0, 1, 45, 90, 135, 179, 180, -179, -135, -90, -45, -1}}
Fine == {AngV(I(k)) : k \in {-170, -100, -10, 10, 80, 100, 170} \cup {45 * j : j \in -3..4}}
Q(n, d) == NumV(RFrac(n, d))
Nums(s) == {N(k) : k \in s}
RayV(o, a) == [t |-> "ray", o |-> o, d |-> a.d]
Rects == {RectMk(I(x), I(y), I(l), I(w)) : x \in 0..1, y \in 0..1, l \in 0..2, w \in 0..2}
Tris == {TMk(P2(0, 0), P2(2, 0), P2(0, 2)), TMk(P2(0, 0), P2(1, 2), P2(2, 0)), TMk(P2(0, 1), P2(2, 2), P2(2, 0)),
         TMk(P2(0, 0), P2(2, 1), P2(1, 2))}
Boxes == {RectMk(Z, Z, Two, Two), RectMk(Z, Z, Two, One), RectMk(One, Z, One, Two)}

Slots ==
  CASE Scen = "order" -> <<Seam, Seam, Seam>>
    [] Scen = "bisect" -> <<Fine, Fine>>
    [] Scen = "bisectline" -> <<Sq2(0, 1), Degs4, Degs4>>
    [] Scen = "trig" -> <<{AngV(I(15 * k)) : k \in {-12, -11, -10, -9, -8, -7, -6, -4, -3, -2, 0, 2, 3, 4, 6, 8, 9, 10, 12} \ {-12, -11, -7}}>>
    [] Scen = "polar" -> <<Sq2(-1, 1), Nums({0, 1, 2, -1}), Degs4>>
    [] Scen = "line" -> <<Pts9, Pts9, Pts9>>
    [] Scen = "linedir" -> <<Pts9, Degs8, Pts9>>
    [] Scen = "linepair" -> <<Pts9, Pts9, Pts9, Pts9>>
    [] Scen = "raypair" -> <<(IF Deep THEN Pts9 ELSE {P2(0, 0), P2(1, 2)}), Degs8, Pts9, Degs8>>
    [] Scen = "segpair" -> IF Deep THEN <<Pts12, Pts12, Pts12, Pts12>> ELSE <<Pts9, Pts9, Pts9, Pts9>>
    [] Scen = "segline" -> <<Pts9, Pts9, Pts9, Pts9>>
    [] Scen = "segpt" -> IF Deep THEN <<Wide, Pts9, Wide>> ELSE <<Pts9, Pts9, Pts9>>
    [] Scen = "circhit" -> <<{P2(0, 0), P2(1, 0)}, Nums({1, 2}), IF Deep THEN Mid ELSE Sq2(-1, 2), Mid>>
    [] Scen = "circray" -> <<{P2(0, 0), P2(1, 0)}, Nums({1, 2}), Mid, Degs8>>
    [] Scen = "circpair" -> <<{P2(0, 0)}, Nums({0, 1, 2, 3}), Sq2(-1, 4), Nums({0, 1, 2, 5})>>
    [] Scen = "circum" -> <<Pts9, Pts9, Pts9, Pts9>>
    [] Scen = "quad" -> <<Nums(-2..2), Nums(-3..3), Nums(-3..3)>>
    [] Scen = "recthit" -> <<Boxes, Wide, IF Deep THEN Wide ELSE Sq2(0, 3)>>
    [] Scen = "rectray" -> <<Boxes, Wide, Degs8>>
    [] Scen = "trihit" -> <<Tris, Wide, IF Deep THEN Wide ELSE Sq2(0, 2)>>
    [] Scen = "triray" -> <<Tris, Wide, Degs8>>
    [] Scen = "tript" -> <<Pts9, Pts9, Pts9, IF Deep THEN Wide ELSE Pts9>>
    [] Scen = "centres" -> IF Deep THEN <<Wide, Pts12, Pts12>> ELSE <<Pts9, Pts9, Pts9>>
    [] Scen = "polypt" -> <<IF Deep THEN {P2(0, 0), P2(1, 1), P2(0, 1)} ELSE {P2(0, 0)}, Pts9, Pts9, Pts9,
                            Pts9 \cup {Vec(Half, Half), Vec(RFrac(3, 2), One), Vec(One, RFrac(3, 2))}>>
    [] Scen = "poly23" -> <<{P2(0, 0)}, Pts9, Pts9, Pts9 \cup {Vec(Half, Half), Vec(Half, Z), Vec(Z, Half), Vec(One, RFrac(3, 2))}>>
    [] Scen = "poly5" -> <<{P2(0, 0)}, {P2(2, 0), P2(1, 2)}, Pts9, Pts9, Pts9>>
    [] Scen = "clip" -> <<IF Deep THEN Cross9 ELSE {P2(-1, -1), P2(1, 1), P2(3, 1)}, Cross9, Cross9, Cross9, {RectMk(Z, Z, Two, Two), RectMk(Z, Z, I(3), One)}>>
    [] Scen = "hullset" -> IF Deep THEN <<Pts9, Pts9, Pts9, Pts9, Pts9>> ELSE <<{P2(0, 0), P2(1, 1), P2(1, 0)}, Pts9, Pts9, Pts9>>
    [] Scen = "rectset" -> <<Rects, Rects>>
    [] Scen = "rectpt" -> <<Rects, {Vec(RFrac(x, 2), RFrac(y, 2)) : x \in -2..7, y \in {-1, 0, 1, 3, 4, 7}}>>
    [] Scen = "mat" -> LET S == {I(-1), Z, One, Two} IN
                       <<{MMk(a, b, c, d, One, I(-1)) : a \in S, b \in S, c \in {Z, One, I(-1)}, d \in S}, {P2(0, 0), P2(1, 2), P2(-1, 1)}>>
    [] Scen = "mat2" -> LET S == {MMk(I(a), I(b), I(c), I(d), I(x), I(-1)) : a \in {0, 1, 2}, b \in {0, -1}, c \in {0, 1}, d \in {1, -1}, x \in {0, 2}}
                        IN <<S, S>>
    [] Scen = "coast" -> <<{P2(0, 0), P2(1, -2)}, {P2(0, 0), P2(1, 0), P2(2, -1)}, Nums((0..8) \cup {21, 32, 37}), {Q(1, 2), Q(1, 4), Q(3, 4), Q(2, 1), Q(-1, 2), Q(0, 1)}>>
    [] Scen = "series" -> <<Nums({-1, 0, 1, 2, 4}), {Q(1, 2), Q(2, 1), Q(0, 1), Q(-1, 2), Q(3, 1)}, Nums(1..6)>>
    [] Scen = "round" -> <<{Q(k, 4) : k \in -22..22}, {Q(1, 1), Q(1, 2), Q(1, 4), Q(2, 1)}>>
    [] Scen = "clamp" -> <<Nums(-2..2), {Q(k, 2) : k \in -5..5}, Nums(-2..2)>>
    [] Scen = "range" -> <<{Q(k, 2) : k \in -4..4}, {Q(k, 2) : k \in -4..4}, {Q(1, 2), Q(1, 1), Q(-1, 2), Q(-1, 1), Q(3, 4), Q(2, 1)}>>
    [] Scen = "server" -> <<{N(k) : k \in {-180, -135, -90, -45, 0, 30, 90, 120, 180}}, {Q(1, 1), Q(1, 2), Q(3, 4), Q(2, 1)}, {Q(1, 2), Q(1, 4), Q(1, 1)}>>
    [] Scen = "speed" -> <<{N(k) : k \in {-100, -50, 0, 50, 100}}, {Q(1, 128), Q(1, 64)}, {Q(1, 1), Q(1, 2)}, {Q(1, 2), Q(1, 4), Q(3, 4)}, {Q(1, 1), Q(25, 32), Q(2, 1)}>>
    [] Scen = "sector" -> <<{N(0), N(1)}, Degs8, Degs8, {p \in Mid : OnCompass(p)}, {P2(0, 0), P2(1, -1)}>>
    [] Scen = "text" -> <<{P2(0, 0), P2(1, -2), Vec(RFrac(-3, 8), RFrac(25, 2))}, Pts9, {Q(0, 1), Q(-1, 4), Q(3, 1), Q(90, 1)}, {Q(1, 8), Q(-2, 1), Q(0, 1)}>>

VARIABLE s

\* --- the calls of a complete tuple ------------------------------------------------
Do(c, ms, A) == [i \in 1..Len(ms) |-> <<c, ms[i], A>>]
If(b, x) == IF b THEN x ELSE <<>>
Tr == BoolV(TRUE)
Fa == BoolV(FALSE)
HalfSeq == <<"clip_x_le", "clip_x_ge", "clip_y_le", "clip_y_ge">>
SideSeq == <<"side_x_le", "side_x_ge", "side_y_le", "side_y_ge">>
Calls(x) ==
  CASE Scen = "order" ->
           Do("ang", <<"is_left_of", "is_right_of", "is_left_equal_of", "is_right_equal_of">>, If(x[3] = AngV(Z), <<x[1], x[2]>>))
           \o Do("ang", <<"is_within">>, x)
           \o Do("ang", <<"is_within">>, <<x[1], NumV(x[2].d), NumV(x[3].d)>>)
    [] Scen = "bisect" -> Do("ang", <<"bisect">>, x) \o Do("ang", <<"bisect">>, <<NumV(x[1].d), NumV(x[2].d)>>)
    [] Scen = "bisectline" -> Do("line", <<"angle_bisector">>, x)
    [] Scen = "trig" -> Do("ang", <<"cos", "sin">>, x) \o Do("ang", <<"cos_deg", "sin_deg">>, <<NumV(x[1].d)>>)
    [] Scen = "polar" ->
           Do("vec", <<"th", "dir", "normalize_vector">>, <<x[1]>>)
           \o Do("vec", <<"newra", "from_polar", "polar2vector">>, <<x[2], x[3]>>)
           \o Do("vec", <<"newra", "from_polar", "polar2vector">>, <<x[2], NumV(x[3].d)>>)
           \o Do("vec", <<"rotate", "rotated_vector">>, <<x[1], x[3]>>) \o Do("vec", <<"rotate", "rotated_vector">>, <<x[1], NumV(x[3].d)>>)
           \o Do("vec", <<"set_length_vector">>, <<x[1], x[2]>>) \o Do("vec", <<"set_polar">>, x)
           \o Do("ang", <<"atan2_deg">>, <<NumV(x[1].y), NumV(x[1].x)>>)
    [] Scen = "line" -> If(~Same(x[1], x[2]),
           LET l == LineThrough(x[1], x[2]) IN
           Do("line", <<"newPP", "newpp", "perpendicular_bisector">>, <<x[1], x[2]>>)
           \o Do("line", <<"dist", "dist2", "projection", "perpendicular">>, <<l, x[3]>>)
           \o Do("line", <<"get_x">>, <<l, NumV(x[3].y)>>) \o Do("line", <<"get_y">>, <<l, NumV(x[3].x)>>))
    [] Scen = "linedir" ->
           LET l == MkLine(x[1], DirVec(x[2].d)) IN
           Do("line", <<"newPA", "newpa">>, <<x[1], x[2]>>) \o Do("line", <<"newPA">>, <<x[1], NumV(x[2].d)>>)
           \o Do("line", <<"dist", "projection", "perpendicular">>, <<l, x[3]>>)
           \o Do("ray", <<"line">>, <<RayV(x[1], x[2])>>) \o Do("ray", <<"in_right_dir">>, <<RayV(x[1], x[2]), x[3]>>)
           \o If(~Same(x[1], x[3]) /\ OnCompass(VSub(x[3], x[1])), Do("ray", <<"newV">>, <<x[1], x[3]>>))
    [] Scen = "linepair" -> If(~Same(x[1], x[2]) /\ ~Same(x[3], x[4]),
           Do("line", <<"intersection", "line_intersection", "is_parallel", "eq">>, <<LineThrough(x[1], x[2]), LineThrough(x[3], x[4])>>))
    [] Scen = "raypair" ->
           Do("ray", <<"intersectionR">>, <<RayV(x[1], x[2]), RayV(x[3], x[4])>>)
           \o Do("ray", <<"intersectionL">>, <<RayV(x[1], x[2]), MkLine(x[3], DirVec(x[4].d))>>)
    [] Scen = "segpair" ->
           LET a == <<SMk(x[1], x[2]), SMk(x[3], x[4])>> IN
           Do("seg", <<"exist_intersectionS", "exist_intersection_except_endpoint", "intersects_except_endpoint", "intersectionS", "distS">>, a)
           \o Do("seg", <<"intersectionS">>, a \o <<Tr>>)
    [] Scen = "segline" -> If(~Same(x[3], x[4]),
           Do("seg", <<"exist_intersectionL", "intersectionL">>, <<SMk(x[1], x[2]), LineThrough(x[3], x[4])>>))
    [] Scen = "segpt" ->
           LET a == SMk(x[1], x[2]) IN
           Do("seg", <<"contains", "nearest_point", "distP", "farthest_dist", "projection", "on_segment", "on_segment_weakly">>, <<a, x[3]>>)
           \o If(Same(x[3], P2(0, 0)) /\ ~Same(x[1], x[2]),
                 Do("seg", <<"perpendicular_bisector">>, <<a>>) \o If(OnCompass(W(a)), Do("seg", <<"direction">>, <<a>>)))
    [] Scen = "circhit" ->
           LET c == CMk(x[1], x[2].v) IN
           Do("circ", <<"intersectionS", "intersection_with_segment">>, <<c, SMk(x[3], x[4])>>)
           \o If(~Same(x[3], x[4]), Do("circ", <<"intersectionL", "intersection_with_line">>, <<c, LineThrough(x[3], x[4])>>))
           \o If(Same(x[3], P2(0, 0)), Do("circ", <<"contains">>, <<c, x[4]>>))
    [] Scen = "circray" -> Do("circ", <<"intersectionR", "intersection_with_ray">>, <<CMk(x[1], x[2].v), RayV(x[3], x[4])>>)
    [] Scen = "circpair" -> Do("circ", <<"intersectionC", "intersection_with_circle">>, <<CMk(x[1], x[2].v), CMk(x[3], x[4].v)>>)
                            \o Do("circ", <<"intersectionC">>, <<CMk(x[3], x[4].v), CMk(x[1], x[2].v)>>)
    [] Scen = "circum" -> Do("circ", <<"circum_circle_contains">>, <<x[4], x[1], x[2], x[3]>>)
                          \o If(Same(x[4], P2(0, 0)), Do("circ", <<"circum_circle">>, <<x[1], x[2], x[3]>>))
    [] Scen = "quad" -> Do("circ", <<"quadratic_f">>, x)
    [] Scen = "recthit" -> Do("rect", <<"intersectionS">>, <<x[1], SMk(x[2], x[3])>>)
                           \o If(~Same(x[2], x[3]), Do("rect", <<"intersectionL">>, <<x[1], LineThrough(x[2], x[3])>>))
    [] Scen = "rectray" -> Do("rect", <<"intersectionR">>, <<x[1], RayV(x[2], x[3])>>)
    [] Scen = "trihit" -> Do("tri", <<"intersectionS">>, <<x[1], SMk(x[2], x[3])>>)
                          \o If(~Same(x[2], x[3]), Do("tri", <<"intersectionL">>, <<x[1], LineThrough(x[2], x[3])>>))
    [] Scen = "triray" -> Do("tri", <<"intersectionR">>, <<x[1], RayV(x[2], x[3])>>)
    [] Scen = "tript" -> Do("tri", <<"contains">>, <<TMk(x[1], x[2], x[3]), x[4]>>) \o Do("tri", <<"tri_contains">>, x)
    [] Scen = "centres" -> LET k == <<TMk(x[1], x[2], x[3])>> IN
           Do("tri", <<"centroid", "circumcenter", "orthocenter", "incenter", "area", "signed_area", "double_signed_area", "ccw", "is_valid">>, k)
           \o Do("tri", <<"tri_centroid", "tri_circumcenter", "tri_orthocenter", "tri_incenter", "signed_area_st", "double_signed_area_st", "tri_ccw">>, x)
           \o Do("hull", <<"is_clockwise">>, x)
    [] Scen = "polypt" -> LET g == PolyMk(SubSeq(x, 1, 4)) IN
           Do("poly", <<"contains", "dist">>, <<g, x[5]>>) \o Do("poly", <<"contains", "dist">>, <<g, x[5], Fa>>)
           \o If(Same(x[5], P2(0, 0)), Do("poly", <<"area", "double_signed_area", "is_clockwise", "is_counter_clockwise", "get_bounding_box",
                                                     "bounding_box_center">>, <<g>>))
    \* polygons of two and of three vertices
    [] Scen = "poly23" -> LET g == PolyMk(SubSeq(x, 1, 3))
                             k == PolyMk(SubSeq(x, 1, 2)) IN
           Do("poly", <<"contains", "dist">>, <<g, x[4]>>) \o Do("poly", <<"contains">>, <<g, x[4], Fa>>)
           \o If(Same(x[3], x[2]), Do("poly", <<"contains", "dist">>, <<k, x[4]>>) \o Do("poly", <<"contains", "dist">>, <<k, x[4], Fa>>)
                                   \o Do("poly", <<"area", "is_clockwise", "get_bounding_box">>, <<k>>))
           \o If(Same(x[4], P2(0, 0)), Do("poly", <<"area", "double_signed_area", "is_clockwise", "is_counter_clockwise", "get_bounding_box">>, <<g>>))
    [] Scen = "poly5" -> LET g == PolyMk(<<x[1], x[2], x[3], x[4], P2(0, 2)>>) IN
           Do("poly", <<"contains", "dist">>, <<g, x[5]>>) \o Do("poly", <<"contains">>, <<g, x[5], Fa>>)
    [] Scen = "clip" -> Do("poly", <<"get_rectangle_clipped_polygon">>, <<PolyMk(SubSeq(x, 1, 4)), x[5]>>)
                        \o If(Same(x[4], x[1]), Do("poly", <<"get_rectangle_clipped_polygon">>, <<PolyMk(SubSeq(x, 1, 3)), x[5]>>))
                        \o Do("poly", HalfSeq, <<ListV(SubSeq(x, 1, 4)), NumV(x[5].w)>>)
                        \o If(Same(x[1], x[2]) /\ Same(x[2], x[3]), Do("poly", SideSeq, <<NumV(x[5].w), x[4]>>))
    [] Scen = "hullset" -> Do("hull", <<"compute", "computeW", "computeG", "get_min_point_index", "sorted_from_min">>, <<HullMk(x, <<>>, <<>>)>>)
                           \o Do("hull", <<"compute">>, <<HullMk(SubSeq(x, 1, 3), <<>>, <<>>)>>)
    [] Scen = "rectset" -> Do("rect", <<"intersected", "united">>, x)
    [] Scen = "rectpt" -> Do("rect", <<"contains">>, x) \o Do("rect", <<"contains_almost">>, x \o <<Q(1, 2)>>)
                          \o Do("rect", <<"from_center4">>, <<NumV(x[2].x), NumV(x[2].y), NumV(x[1].l), NumV(x[1].w)>>)
                          \o Do("rect", <<"from_centerV">>, <<x[2], NumV(x[1].l), NumV(x[1].w)>>)
    [] Scen = "mat" -> Do("mat", <<"det", "invertible">>, <<x[1]>>) \o Do("mat", <<"inverted">>, <<x[1]>>)
                       \o Do("mat", <<"transformV", "mulV", "transform_vec">>, x)
                       \o Do("mat", <<"translate", "scale">>, <<x[1], NumV(x[2].x), NumV(x[2].y)>>)
                       \o Do("mat", <<"make_translation", "make_scaling">>, <<NumV(x[2].x), NumV(x[2].y)>>)
                       \o Do("mat", <<"rotate">>, <<x[1], AngV(D90 (.) x[2].y)>>) \o Do("mat", <<"make_rotation">>, <<AngV(D90 (.) x[2].y)>>)
    [] Scen = "mat2" -> Do("mat", <<"mulM", "imul", "eq">>, x)
    [] Scen = "coast" ->
           Do("soc", <<"inertia_n_step_travel">>, <<x[2], x[3], x[4]>>) \o Do("soc", <<"inertia_n_step_point">>, x)
           \o Do("soc", <<"inertia_n_step_distance">>, <<NumV(x[2].x), x[3], x[4]>>)
           \o If(x[3] = N(1), Do("soc", <<"inertia_final_travel">>, <<x[2], x[4]>>) \o Do("soc", <<"inertia_final_point">>, <<x[1], x[2], x[4]>>)
                              \o Do("soc", <<"inertia_final_distance">>, <<NumV(x[2].x), x[4]>>))
    [] Scen = "series" ->
           Do("soc", <<"calc_length_geom_series">>, <<x[1], NumV(Series(x[1].v, x[2].v, RToInt(x[3].v))), x[2]>>)
           \o If(RSgn(x[2].v) >= 0, Do("soc", <<"calc_first_term_geom_series">>, <<x[1], x[2], x[3]>>))
    [] Scen = "round" -> Do("soc", <<"quantize", "unquantize_min", "unquantize_max">>, x) \o If(x[2] = N(1), Do("soc", <<"r_int">>, <<x[1]>>))
                         \o If(x[2] = N(1), Do("soc", <<"f_range1">>, <<x[1]>>))
    [] Scen = "clamp" -> If(x[1].v \preceq x[3].v, Do("soc", <<"bound", "min_max">>, x))
    [] Scen = "range" -> Do("soc", <<"f_range3">>, x) \o If(x[3] = N(1), Do("soc", <<"f_range2">>, <<x[1], x[2]>>))
    [] Scen = "server" -> Do("soc", <<"dir_rate">>, x) \o Do("soc", <<"effective_turn">>, x)
                          \o Do("soc", <<"kick_rate">>, <<x[2], x[1], x[3], Q(1, 8), Q(1, 4), Q(1, 2)>>)
    [] Scen = "speed" -> Do("soc", <<"final_speed">>, SubSeq(x, 1, 4)) \o Do("soc", <<"can_over_speed_max">>, x)
    [] Scen = "sector" -> Do("sect", <<"contains">>, <<SectMk(x[5], x[1].v, Two, x[2].d, x[3].d), VAdd(x[4], x[5])>>)
                          \o If(Same(x[4], P2(1, 0)), Do("sect", <<"area", "get_circumference_min", "get_circumference_max">>,
                                                         <<SectMk(x[5], x[1].v, Two, x[2].d, x[3].d)>>))
    [] Scen = "text" ->
           LET p == x[1] q == x[2] a == x[3].v b == x[4].v sg == SMk(p, q)
               T1(o) == Do(o.t, <<"text", "text_repr">>, <<o>>)
               T2(o) == Do(o.t, <<"text", "text_repr", "to_str">>, <<o>>)
           IN If(Same(p, q) \/ a = b, T1(AngV(a)))
              \o T1(p) \o T1(q) \o T1([t |-> "line", a |-> p.x, b |-> a, c |-> b]) \o T1([t |-> "ray", o |-> p, d |-> a])
              \o T2(sg) \o T2(TMk(p, q, Vec(a, b))) \o T2(CMk(p, RAbs(b))) \o T1(ZMk(RAbs(a), RAbs(b)))
              \o T1(SectMk(p, RAbs(b), RAbs(b) (+) One, a, q.x)) \o T2(RectMk(p.x, p.y, RAbs(a), RAbs(b)))
              \o T1(PolyMk(<<p, q>>)) \o T1(PolyMk(<<q, Vec(a, b), p>>)) \o T1(MMk(p.x, p.y, q.x, q.y, a, b))
              \o T1(HullMk(<<p, q, Vec(a, b)>>, <<>>, <<>>))

Made(x) == SelectSeq(Calls(x), LAMBDA k : k[3] # <<>> /\ InDomain(k[1], k[2], k[3]))

\* --- the state machine --------------------------------------------------------------
Sl == TLCEval(Slots)
Init == s = <<>>
Next == Len(s) < Len(Sl) /\ \E v \in Sl[Len(s) + 1] : s' = Append(s, v)

OneCall(k) == LET c == k[1] m == k[2] A == k[3] out == TLCEval(Outcome(c, m, A))
              IN /\ Accepts(c, m, A, out.r, out.p)
                 /\ (IOEnv.MC_REJECT # "1" \/ Rejects(c, m, A, out.r, out.p))
Agreement == Len(s) = Len(Sl) =>
    LET ks == TLCEval(Made(s))
    IN /\ \A i \in 1..Len(ks) : OneCall(ks[i])
       /\ PrintT("E" \o ToJson([i \in 1..Len(ks) |-> <<ks[i][1] \o "." \o ks[i][2], ks[i][3]>>]))
=============================================================================
