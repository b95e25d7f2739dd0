------------------------------ MODULE MC_Heap ------------------------------
(***************************************************************************)
(* The library as a state machine over a small heap of named objects.      *)
(*                                                                         *)
(* State: heap, a value for each name.  A step is one public call on the    *)
(* named objects (the same object may be passed twice) and literals; new    *)
(* objects may be bound to a name.  Fun computes the outcome.  TLC explores *)
(* every history inside the bounds of the scenario and checks on every      *)
(* transition that                                                         *)
(*   - the relational specification accepts the outcome      (Accepts)      *)
(*   - it rejects every perturbed outcome                    (Rejects)      *)
(* and, on every state, the objects' own invariants (WellFormed).           *)
(* Each transition is printed; the harness replays a tour through all of    *)
(* them on the implementation, where Trace.tla judges what really happens.  *)
(***************************************************************************)
EXTENDS Agree, Json, IOUtils

Scen == IOEnv.SCEN
Deep == IOEnv.MC_TIER = "thorough"

\* --- scenarios ---------------------------------------------------------------------
\* an operation: <<class, method, argument kinds, may the result be bound>>
\* argument kinds: a class name (any named object of that class), or a set of literals
Ops1(c, ms, ks) == [i \in 1..Len(ms) |-> <<c, ms[i], ks, FALSE>>]
Binds(c, ms, ks) == [i \in 1..Len(ms) |-> <<c, ms[i], ks, TRUE>>]
K(c) == [k |-> "obj", c |-> c]
L(s) == [k |-> "lit", s |-> s]

Coord == {N(0), N(1)}
Wide == {N(-1), N(1), N(2)}
Degs == {N(0), N(90), N(-90), N(180), N(270)}
Mults == {N(-1), N(2)}
Grid4 == {P2(x, y) : x \in 0..1, y \in 0..1}

InitHeap ==
  CASE Scen = "ang" -> [a |-> AngV(Z), b |-> AngV(I(90))]
    [] Scen = "vec" -> [a |-> P2(0, 1), b |-> P2(1, 1)]
    [] Scen = "rect" -> [r |-> RectMk(Z, Z, One, One), p |-> P2(0, 0), z |-> ZMk(One, One)]
    [] Scen = "rect2" -> [r |-> RectMk(Z, Z, One, One), s |-> RectMk(One, One, One, One)]
    [] Scen = "seg" -> [s |-> SMk(P2(0, 0), P2(1, 0)), p |-> P2(1, 1)]
    [] Scen = "tri" -> [k |-> TMk(P2(0, 0), P2(1, 0), P2(0, 1)), p |-> P2(1, 1), s |-> SMk(P2(0, 0), P2(1, 1))]
    [] Scen = "circ" -> [c |-> CMk(P2(0, 0), One), p |-> P2(1, 1)]
    [] Scen = "sect" -> [k |-> SectMk(P2(0, 0), One, Two, Z, I(90)), p |-> P2(1, 0), a |-> AngV(I(180))]
    [] Scen = "ray" -> [y |-> [t |-> "ray", o |-> P2(0, 0), d |-> Z], p |-> P2(1, 1), a |-> AngV(I(90))]
    [] Scen = "poly" -> [g |-> PolyMk(<<P2(0, 0)>>), r |-> RectMk(Z, Z, One, One)]
    [] Scen = "hull" -> [h |-> HullMk(<<>>, <<>>, <<>>), g |-> PolyMk(<<P2(0, 0)>>)]
    [] Scen = "mat" -> [m |-> MId, k |-> MMk(Z, One, One, Z, Z, Z)]
    [] Scen = "size" -> [z |-> ZMk(One, Two), y |-> ZMk(Z, One)]

OpList ==
  CASE Scen = "ang" ->
             Ops1("ang", <<"set_degree", "iadd", "isub">>, <<K("ang"), L({N(45), N(-135), N(360), N(540)})>>)
             \o Ops1("ang", <<"set_angle", "iadd", "isub", "eq">>, <<K("ang"), K("ang")>>)
             \o Ops1("ang", <<"imul", "itruediv">>, <<K("ang"), L({N(-1), N(3)})>>)
             \o Ops1("ang", <<"reverse", "normal", "degree", "abs", "get_normalized", "radian", "float">>, <<K("ang")>>)
             \o Binds("ang", <<"newA", "copy", "neg", "reverse_angle">>, <<K("ang")>>)
             \o Binds("ang", <<"add", "sub">>, <<K("ang"), K("ang")>>)
             \o Binds("ang", <<"mul">>, <<K("ang"), L({N(-1), N(2)})>>)
    [] Scen = "vec" ->
             Ops1("vec", <<"validate", "invalidate", "reverse", "x", "y", "is_valid", "abs_x", "abs_y", "r", "length", "r2">>, <<K("vec")>>)
             \o Ops1("vec", <<"assign", "set_x_y">>, <<K("vec"), L(Coord), L(Coord)>>)
             \o Ops1("vec", <<"set_x", "set_y", "add_x", "add_y", "sub_x", "sub_y", "scale", "imul">>, <<K("vec"), L({N(0), N(1), N(-1)})>>)
             \o Ops1("vec", <<"set_vector", "add", "sub", "iadd", "isub", "dist", "dist2", "inner_product", "outer_product",
                               "equals", "eq", "ne", "equals_weakly">>, <<K("vec"), K("vec")>>)
             \o Ops1("vec", <<"rotate">>, <<K("vec"), L({N(90), N(-90), N(180)})>>)
             \o Ops1("vec", <<"itruediv">>, <<K("vec"), L({N(1), N(-1)})>>)
             \o Ops1("vec", <<"set_polar">>, <<K("vec"), L({N(1)}), L(Degs)>>)
             \o Binds("vec", <<"newV", "copy", "get_copy", "reverse_vector", "abs">>, <<K("vec")>>)
             \o Binds("vec", <<"plus", "minus">>, <<K("vec"), K("vec")>>)
             \o Binds("vec", <<"rotated_vector">>, <<K("vec"), L({N(90), N(180)})>>)
             \o Binds("vec", <<"times", "over">>, <<K("vec"), L({N(1), N(-1)})>>)
    [] Scen = "rect" ->
             Ops1("rect", <<"move_left", "move_min_x", "move_right", "move_max_x", "move_top", "move_min_y", "move_bottom",
                           "move_max_y", "set_left", "set_min_x", "set_right", "set_max_x", "set_top", "set_min_y",
                           "set_bottom", "set_max_y", "set_length", "set_width">>, <<K("rect"), L(Wide)>>)
             \o Ops1("rect", <<"move_center", "move_top_left", "move_bottom_right", "set_top_left", "set_bottom_right",
                                "contains">>, <<K("rect"), K("vec")>>)
             \o Ops1("rect", <<"live_top_left", "live_size", "peek_top_left", "peek_size", "peek_corner", "set_size2",
                                "set_top_left", "set_bottom_right">>, <<K("rect"), L({N(0), N(2)}), L({N(1)})>>)
             \o Ops1("rect", <<"set_sizeS">>, <<K("rect"), K("size")>>)
             \o Ops1("rect", <<"assignVS">>, <<K("rect"), K("vec"), K("size")>>)
             \o Ops1("rect", <<"assignVV">>, <<K("rect"), K("vec"), K("vec")>>)
             \o Ops1("rect", <<"assign4">>, <<K("rect"), L({N(0)}), L({N(1)}), L({N(-1), N(2)}), L({N(1)})>>)
             \o Ops1("rect", <<"assignVLW">>, <<K("rect"), K("vec"), L({N(2)}), L({N(-1)})>>)
             \o Ops1("rect", <<"left", "right", "top", "bottom", "min_x", "max_x", "min_y", "max_y", "area", "is_valid",
                                "center", "top_right", "bottom_left", "bottom_right", "left_edge", "right_edge",
                                "top_edge", "bottom_edge">>, <<K("rect")>>)
             \o Binds("rect", <<"size", "top_left">>, <<K("rect")>>)
             \o Binds("rect", <<"newR">>, <<K("rect")>>) \o Binds("rect", <<"newVS">>, <<K("vec"), K("size")>>)
             \o Ops1("size", <<"set_length", "set_width">>, <<K("size"), L({N(1), N(2)})>>)
             \o Ops1("vec", <<"assign">>, <<K("vec"), L({N(0), N(1)}), L({N(0), N(1)})>>)
    [] Scen = "rect2" ->
             Ops1("rect", <<"assignR">>, <<K("rect"), K("rect")>>)
             \o Binds("rect", <<"intersected", "united">>, <<K("rect"), K("rect")>>)
             \o Binds("rect", <<"newR">>, <<K("rect")>>)
             \o Ops1("rect", <<"set_left", "set_right", "move_top", "set_bottom">>, <<K("rect"), L({N(0), N(1), N(2)})>>)
             \o Ops1("rect", <<"area", "center", "right">>, <<K("rect")>>)
    [] Scen = "seg" ->
             Ops1("seg", <<"swap", "reverse", "assign0", "length", "line", "is_valid">>, <<K("seg")>>)
             \o Ops1("seg", <<"assignPP">>, <<K("seg"), K("vec"), L(Grid4)>>) \o Ops1("seg", <<"assignPP">>, <<K("seg"), L(Grid4), K("vec")>>)
             \o Ops1("seg", <<"assignPLA">>, <<K("seg"), K("vec"), L({N(1)}), L({N(0), N(90)})>>)
             \o Ops1("seg", <<"assign4">>, <<K("seg"), L(Coord), L({N(0)}), L({N(1)}), L(Coord)>>)
             \o Ops1("seg", <<"live_origin", "live_terminal", "peek_origin", "peek_terminal", "peek_line">>, <<K("seg"), L(Coord), L(Coord)>>)
             \o Ops1("seg", <<"eq", "equals_weakly">>, <<K("seg"), K("seg")>>)
             \o Binds("seg", <<"origin", "terminal", "copy", "reversed_segment">>, <<K("seg")>>)
             \o Binds("seg", <<"newPP">>, <<K("vec"), K("vec")>>)
             \o Ops1("vec", <<"assign">>, <<K("vec"), L(Coord), L(Coord)>>) \o Ops1("vec", <<"invalidate", "validate">>, <<K("vec")>>)
    [] Scen = "tri" ->
             Ops1("tri", <<"is_valid", "area", "signed_area", "double_signed_area", "ccw", "centroid">>, <<K("tri")>>)
             \o Ops1("tri", <<"assign3">>, <<K("tri"), K("vec"), L({P2(0, 0), P2(1, 0)}), L({P2(0, 1)})>>)
             \o Ops1("tri", <<"assign3">>, <<K("tri"), L({P2(1, 0)}), K("vec"), K("vec")>>)
             \o Ops1("tri", <<"assignSP">>, <<K("tri"), K("seg"), K("vec")>>)
             \o Ops1("tri", <<"live_a", "live_b", "live_c", "peek_a", "peek_b", "peek_c">>, <<K("tri"), L(Coord), L({N(1)})>>)
             \o Binds("tri", <<"a", "b", "c">>, <<K("tri")>>) \o Binds("tri", <<"newSP">>, <<K("seg"), K("vec")>>)
             \o Ops1("vec", <<"assign">>, <<K("vec"), L(Coord), L({N(0)})>>) \o Ops1("seg", <<"swap">>, <<K("seg")>>)
    [] Scen = "circ" ->
             Ops1("circ", <<"radius", "area">>, <<K("circ")>>) \o Ops1("circ", <<"contains">>, <<K("circ"), K("vec")>>)
             \o Ops1("circ", <<"assign">>, <<K("circ"), K("vec"), L({N(-1), N(0), N(1), N(2)})>>)
             \o Ops1("circ", <<"live_center", "peek_center">>, <<K("circ"), L(Coord), L(Coord)>>)
             \o Binds("circ", <<"center">>, <<K("circ")>>) \o Binds("circ", <<"new">>, <<K("vec"), L({N(-1), N(1), N(2)})>>)
             \o Ops1("vec", <<"assign">>, <<K("vec"), L(Coord), L(Coord)>>) \o Ops1("vec", <<"invalidate">>, <<K("vec")>>)
    [] Scen = "sect" ->
             Ops1("sect", <<"radius_min", "radius_max", "area", "get_circumference_min", "get_circumference_max">>, <<K("sect")>>)
             \o Ops1("sect", <<"assign">>, <<K("sect"), K("vec"), L({N(-1), N(1)}), L({N(2)}), K("ang"), L({N(90), N(-90)})>>)
             \o Ops1("sect", <<"assign">>, <<K("sect"), K("vec"), L({N(0)}), L({N(1)}), L({N(180)}), K("ang")>>)
             \o Ops1("sect", <<"live_start", "live_end", "peek_start", "peek_end">>, <<K("sect"), L({N(0), N(90), N(-90)})>>)
             \o Ops1("sect", <<"live_center", "peek_center">>, <<K("sect"), L(Coord), L({N(0)})>>)
             \o Ops1("sect", <<"eq">>, <<K("sect"), K("sect")>>)
             \o Binds("sect", <<"center", "angle_left_start", "angle_right_end">>, <<K("sect")>>)
             \o Binds("sect", <<"new">>, <<K("vec"), L({N(1)}), L({N(2)}), K("ang"), K("ang")>>)
             \o Ops1("vec", <<"assign">>, <<K("vec"), L(Coord), L({N(0)})>>) \o Ops1("ang", <<"set_degree">>, <<K("ang"), L({N(0), N(180)})>>)
    [] Scen = "ray" ->
             Ops1("ray", <<"live_dir", "peek_dir">>, <<K("ray"), L(Degs)>>)
             \o Ops1("ray", <<"live_origin", "peek_origin">>, <<K("ray"), L(Coord), L(Coord)>>)
             \o Binds("ray", <<"origin", "dir", "copy">>, <<K("ray")>>) \o Ops1("ray", <<"eq">>, <<K("ray"), K("ray")>>)
             \o Binds("ray", <<"newA">>, <<K("vec"), K("ang")>>)
             \o Ops1("vec", <<"assign">>, <<K("vec"), L(Coord), L(Coord)>>) \o Ops1("ang", <<"set_degree">>, <<K("ang"), L(Degs)>>)
    [] Scen = "poly" ->
             Ops1("poly", <<"clear", "area", "double_signed_area", "is_clockwise", "is_counter_clockwise", "vertices",
                           "vertices_">>, <<K("poly")>>)
             \o Binds("poly", <<"get_bounding_box">>, <<K("poly")>>)
             \o Ops1("poly", <<"add_vertex", "live_vertices", "peek_vertices">>, <<K("poly"), L({P2(0, 0), P2(2, 0), P2(1, 2)})>>)
             \o Ops1("poly", <<"assign">>, <<K("poly"), L({ListV(<<>>), ListV(<<P2(1, 2)>>), ListV(<<P2(0, 0), P2(1, 2), P2(2, 0)>>)})>>)
    [] Scen = "hull" ->
             Ops1("hull", <<"clear", "clear_results", "compute", "computeW", "computeG", "compute_wrapping_method",
                           "compute_graham_scan", "input_points", "vertices", "edges">>, <<K("hull")>>)
             \o Ops1("hull", <<"to_polygon">>, <<K("hull")>>)
             \o Ops1("hull", <<"add_point", "live_inputs", "peek_inputs", "peek_vertices">>, <<K("hull"), L({P2(0, 0), P2(2, 0), P2(1, 1), P2(0, 2)})>>)
             \o Ops1("hull", <<"add_points">>, <<K("hull"), L({ListV(<<P2(2, 2), P2(0, 0)>>), ListV(<<>>)})>>)
    [] Scen = "mat" ->
             Ops1("mat", <<"reset", "m11", "m12", "m21", "m22", "dxtf", "dytf", "det", "invertible">>, <<K("mat")>>)
             \o Binds("mat", <<"inverted">>, <<K("mat")>>)
             \o Ops1("mat", <<"translate">>, <<K("mat"), L({N(-1), N(1)}), L({N(0), N(1)})>>)
             \o Ops1("mat", <<"scale">>, <<K("mat"), L({N(-1), N(1)}), L({N(-1), N(0)})>>)
             \o Ops1("mat", <<"rotate">>, <<K("mat"), L({AngV(D90), AngV(D180)})>>)
             \o Ops1("mat", <<"imul", "eq">>, <<K("mat"), K("mat")>>) \o Binds("mat", <<"mulM">>, <<K("mat"), K("mat")>>)
             \o Ops1("mat", <<"transform_vec", "transformV", "mulV">>, <<K("mat"), L({P2(1, 0), P2(1, 2)})>>)
             \o Ops1("mat", <<"transformXY">>, <<K("mat"), L({N(1)}), L({N(2)})>>)
             \o Ops1("mat", <<"assign">>, <<K("mat"), L({N(1)}), L({N(1)}), L({N(0)}), L({N(1)}), L({N(0)}), L({N(0)})>>)
    [] Scen = "size" ->
             Ops1("size", <<"assign">>, <<K("size"), L({N(-1), N(0), N(2)}), L({N(1), N(2)})>>)
             \o Ops1("size", <<"set_length", "set_width">>, <<K("size"), L({N(-2), N(0), N(1), N(3)})>>)
             \o Ops1("size", <<"length", "width", "diagonal", "is_valid">>, <<K("size")>>)
             \o Ops1("size", <<"eq">>, <<K("size"), K("size")>>)

Dom(nm, v) ==
  CASE Scen = "ang" -> (RIsInt(v.d (/) I(45)))
    [] Scen = "vec" -> (v.x \in {Z, One} /\ v.y \in {Z, One})
    [] Scen = "rect" -> (CASE v.t = "rect" -> v.x0 \in {Z, One} /\ v.y0 \in {Z, One} /\ v.x1 \in {One, Two} /\ v.y1 \in {One, Two}
                          [] v.t = "size" -> v.l = One /\ v.w \in {One, Two}
                          [] v.t = "vec" -> v.x \in {Z, One} /\ v.y = Z)
    [] Scen = "rect2" -> (v.x0 \in {Z, One} /\ v.x1 \in {One, Two} /\ v.y0 \in {Z, One} /\ v.y1 \in {One, Two})
    [] Scen = "seg" -> (CASE v.t = "seg" -> v.o.x \in {Z, One} /\ v.o.y \in {Z, One} /\ v.e.x \in {Z, One} /\ v.e.y \in {Z, One}
                                            /\ v.o.ok /\ v.e.ok
                          [] v.t = "vec" -> v.x \in {Z, One} /\ v.y \in {Z, One})
    [] Scen = "tri" -> (CASE v.t = "tri" -> \A q \in {v.a, v.b, v.c} : q.x \in {Z, One} /\ q.y \in {Z, One}
                          [] v.t = "seg" -> TRUE
                          [] v.t = "vec" -> v.x \in {Z, One} /\ v.y \in {Z, One})
    [] Scen = "circ" -> (CASE v.t = "circ" -> v.r \in {Z, One, Two} /\ v.c.x \in {Z, One} /\ v.c.y \in {Z, One}
                          [] v.t = "vec" -> v.x \in {Z, One} /\ v.y \in {Z, One})
    [] Scen = "sect" -> (CASE v.t = "sect" -> v.c.x \in {Z, One} /\ v.c.y = Z
                          [] v.t = "vec" -> v.x \in {Z, One} /\ v.y = Z
                          [] v.t = "ang" -> v.d \in {Z, D180})
    [] Scen = "ray" -> (CASE v.t = "vec" -> v.x \in {Z, One} /\ v.y \in {Z, One} [] OTHER -> TRUE)
    [] Scen = "poly" -> (CASE v.t = "poly" -> Len(v.v) <= 4 [] OTHER -> TRUE)
    [] Scen = "hull" -> (CASE v.t = "hull" -> Len(v.i) <= (IF Deep THEN 5 ELSE 4) [] OTHER -> TRUE)
    [] Scen = "mat" -> (LET S == {Z, One, RInt(-1)} IN
                          /\ {v.a, v.b, v.c, v.d} \subseteq S
                          /\ v.x = Z /\ v.y \in (IF Deep THEN S ELSE {Z, One})
                          /\ (v.a = Z \/ v.b = Z) /\ (v.a = Z \/ v.c = Z) /\ (v.d = Z \/ v.b = Z) /\ (v.d = Z \/ v.c = Z)
                          /\ nm = "k" => v.y = Z /\ (Deep \/ MDet(v) # Z))
    [] Scen = "size" -> (v.l \preceq Two /\ v.w \preceq Two)

\* --- the state machine -----------------------------------------------------------------
Ops == TLCEval(OpList)
Names == DOMAIN InitHeap

VARIABLE heap

\* what may be passed where
Toks(kind) == IF kind.k = "lit" THEN {[v |-> x] : x \in kind.s}
              ELSE {[n |-> x] : x \in {x \in Names : heap[x].t = kind.c}}
RECURSIVE TokSeqs(_)
TokSeqs(ks) == IF ks = <<>> THEN {<<>>}
               ELSE {<<t>> \o s : t \in Toks(Head(ks)), s \in TokSeqs(Tail(ks))}
IsName(t) == "n" \in DOMAIN t
ValOf(t) == IF IsName(t) THEN heap[t.n] ELSE t.v

DomAll(h) == \A x \in Names : Dom(x, h[x])

Init == heap = InitHeap

Call(op, toks) ==
    LET c == op[1] m == op[2] n == Len(toks)
        A == TLCEval([i \in 1..n |-> ValOf(toks[i])])
        out == TLCEval(Outcome(c, m, A))
        mu == Mutates(c, m)
        mun == {toks[i].n : i \in {i \in mu : IsName(toks[i])}}
        after == TLCEval([x \in Names |-> IF x \in mun THEN out.p[CHOOSE i \in mu : IsName(toks[i]) /\ toks[i].n = x]
                                          ELSE heap[x]])
        targets == IF op[4] THEN {x \in Names : heap[x].t = out.r.t} ELSE {}
    IN /\ InDomain(c, m, A)
       /\ Assert(Accepts(c, m, A, out.r, out.p), "not accepted")
       /\ IF IOEnv.MC_REJECT = "1" THEN Assert(Rejects(c, m, A, out.r, out.p), "too loose") ELSE TRUE
       /\ \E b \in targets \cup {""} :
             LET h == IF b = "" THEN after ELSE [after EXCEPT ![b] = out.r]
             IN /\ PrintT("E" \o ToJson(<<heap, c \o "." \o m, toks, b, h, DomAll(h)>>))
                /\ DomAll(h)
                /\ heap' = h

Next == \E k \in 1..Len(Ops) : \E toks \in TokSeqs(Ops[k][3]) : Call(Ops[k], toks)

\* --- objects' own invariants ------------------------------------------------------------------
WF(v) == CASE v.t = "ang" -> v.d \preceq D180 /\ v.d \succ RNeg(D180)
           [] v.t = "ray" -> v.d \preceq D180 /\ v.d \succ RNeg(D180)
           [] v.t = "rect" -> v.x1 = v.x0 (+) v.l /\ v.y1 = v.y0 (+) v.w /\ RSgn(v.l) >= 0 /\ RSgn(v.w) >= 0
           [] v.t = "size" -> RSgn(v.l) >= 0 /\ RSgn(v.w) >= 0
           [] v.t = "circ" -> RSgn(v.r) >= 0
           [] v.t = "sect" -> RSgn(v.r0) >= 0
           [] v.t = "hull" -> Len(v.v) = Len(v.e)
           [] OTHER -> TRUE
WellFormed == \A x \in Names : WF(heap[x])
=============================================================================
