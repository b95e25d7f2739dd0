----------------------------- MODULE PyrusGeom -----------------------------
(***************************************************************************)
(* The library as one state machine.                                       *)
(*                                                                         *)
(* State: a heap of live objects (abstract values, see Val).  One step is   *)
(* one public call.  A call is described by its class, method, argument     *)
(* values before (A) and after (P) and result r; Judge says which clauses   *)
(* of the specification a call breaks:                                     *)
(*                                                                         *)
(*   - the method's own clauses (modules J...)                              *)
(*   - "raised" / "not-finite": a call inside its domain returns a value     *)
(*   - "argument-changed": only the arguments listed in Mutates change      *)
(*                                                                         *)
(* and Frame adds what must hold of the rest of the heap: a call changes no *)
(* object but its mutable arguments, and its result is a new object.        *)
(***************************************************************************)
EXTENDS JPolygon, JVector, JMatrix, JSoccer, JText

\* --- which arguments a call may change ---------------------------------------
VecMut == {"validate", "invalidate", "assign", "set_x", "set_y", "set_x_y", "set_vector", "set_polar",
           "add", "sub", "add_x", "add_y", "sub_x", "sub_y", "scale", "reverse", "rotate", "set_dir",
           "set_length", "normalize", "iadd", "isub", "imul", "itruediv"}
AngMut == {"set_degree", "set_angle", "normal", "reverse", "iadd", "isub", "imul", "itruediv"}
SegMut == {"assign0", "assignPP", "assignPLA", "assign4", "swap", "reverse"}
RectMut == {"assign4", "assignVLW", "assignVS", "assignVV", "assignR",
            "move_center", "move_top_left", "move_bottom_right", "move_left", "move_min_x", "move_right",
            "move_max_x", "move_top", "move_min_y", "move_bottom", "move_max_y",
            "set_left", "set_min_x", "set_right", "set_max_x", "set_top", "set_min_y", "set_bottom",
            "set_max_y", "set_top_left", "set_bottom_right", "set_length", "set_width", "set_size2",
            "set_sizeS"}
LiveMut == {"live_origin", "live_terminal", "live_a", "live_b", "live_c", "live_center", "live_dir",
            "live_start", "live_end", "live_top_left", "live_size", "live_vertices", "live_inputs"}
Mut1 == [ang  |-> AngMut, vec |-> VecMut, line |-> {}, ray |-> {}, seg |-> SegMut,
         tri  |-> {"assign3", "assignSP"}, circ |-> {"assign"}, sect |-> {"assign"},
         size |-> {"assign", "set_length", "set_width"}, rect |-> RectMut,
         poly |-> {"clear", "assign", "add_vertex"},
         hull |-> {"add_point", "add_points", "clear", "clear_results", "compute", "computeW",
                   "computeG", "compute_wrapping_method", "compute_graham_scan"},
         mat  |-> {"reset", "assign", "translate", "scale", "rotate", "imul"},
         soc  |-> {}]
Mutates(c, m) == IF m \in Mut1[c] \/ m \in LiveMut THEN {1}
                 ELSE IF c = "mat" /\ m = "transform_vec" THEN {2}
                 ELSE IF c = "soc" /\ m = "wind_effect" THEN {7} ELSE {}

\* --- writing through accessors ---------------------------------------------------
\* live_X: through the reference accessor X_() - the object itself changes
\* peek_X: through the copying accessor X() - the object does not change
SetXY(v, x, y) == [v EXCEPT !.x = x, !.y = y]
JLive(c, m, A, P) ==
    LET o == A[1]
        q == P[1]
        XY(v) == SetXY(v, A[2].v, A[3].v)
    IN CASE m = "live_origin" -> JSame(q, [o EXCEPT !.o = XY(o.o)])
         [] m = "live_terminal" -> JSame(q, [o EXCEPT !.e = XY(o.e)])
         [] m = "live_a" -> JSame(q, [o EXCEPT !.a = XY(o.a)])
         [] m = "live_b" -> JSame(q, [o EXCEPT !.b = XY(o.b)])
         [] m = "live_c" -> JSame(q, [o EXCEPT !.c = XY(o.c)])
         [] m = "live_center" ->
              IF c = "circ" /\ q = o THEN Ok ELSE JSame(q, [o EXCEPT !.c = XY(o.c)])
         [] m = "live_top_left" -> RectIs(q, A[2].v, A[3].v, o.l, o.w, Tol12(RSc(o) (+) RAbs(A[2].v) (+) RAbs(A[3].v)))
         [] m = "live_size" -> RectIs(q, o.x0, o.y0, A[2].v, A[3].v, Tol12(RSc(o) (+) RAbs(A[2].v) (+) RAbs(A[3].v)))
         [] m = "live_dir" -> JSame(q.o, o.o) \cup JAng([t |-> "ang", d |-> q.d], A[2].v, E9)
         [] m = "live_start" -> C("same", q = [o EXCEPT !.s = q.s]) \cup JAng([t |-> "ang", d |-> q.s], A[2].v, E9)
         [] m = "live_end" -> C("same", q = [o EXCEPT !.e = q.e]) \cup JAng([t |-> "ang", d |-> q.e], A[2].v, E9)
         [] m = "live_vertices" -> IF c = "poly" THEN JSame(q, PolyMk(Append(o.v, A[2])))
                                   ELSE JSame(q, [o EXCEPT !.v = Append(o.v, A[2])])
         [] m = "live_inputs" -> JSame(q, [o EXCEPT !.i = Append(o.i, A[2])])
         [] OTHER -> {"unknown-op"}
PeekOps == {"peek_origin", "peek_terminal", "peek_a", "peek_b", "peek_c", "peek_center", "peek_dir",
            "peek_start", "peek_end", "peek_top_left", "peek_size", "peek_vertices", "peek_inputs",
            "peek_edges", "peek_corner", "peek_line"}

\* calls with argument combinations the documentation does not list
BadOps == {"bad", "bad_kw", "bad_add", "bad_intersection", "bad_dist", "bad_size", "bad_center", "bad_transform"}

\* --- method clauses ---------------------------------------------------------------
Clauses(c, m, A, r, P, g) ==
    IF m \in LiveMut THEN JLive(c, m, A, P)
    ELSE IF m \in BadOps THEN JExc(r)
    ELSE IF m \in PeekOps THEN {}          \* nothing but the frame condition
    ELSE IF m \in TextOps THEN JText(m, A, r)
    ELSE CASE c = "ang"  -> JAngle(m, A, r, P, g)
           [] c = "vec"  -> JVector(m, A, r, P, g)
           [] c = "line" -> JLine(m, A, r, P, g)
           [] c = "ray"  -> JRay(m, A, r, P, g)
           [] c = "seg"  -> JSegment(m, A, r, P, g)
           [] c = "tri"  -> JTriangle(m, A, r, P, g)
           [] c = "circ" -> JCircle(m, A, r, P, g)
           [] c = "sect" -> JSector(m, A, r, P, g)
           [] c = "size" -> JSize(m, A, r, P, g)
           [] c = "rect" -> JRect(m, A, r, P, g)
           [] c = "poly" -> JPolygon(m, A, r, P, g)
           [] c = "hull" -> JHull(m, A, r, P, g)
           [] c = "mat"  -> JMatrix(m, A, r, P, g)
           [] c = "soc"  -> JSoccer(m, A, r, P, g)

\* --- domain ----------------------------------------------------------------------
\* Invalid points may be stored, copied and read back; computing with them has no
\* specified result.  Nor has a "line" 0x + 0y + c = 0.
StructOps == {"newPP", "newPLA", "new4", "new3", "newSP", "newA", "newV", "newL", "new", "newVLW", "newVS", "newVV",
              "newR", "assign", "assignPP", "assignPLA", "assign3", "assignSP", "assignVLW", "assignVS", "assignVV",
              "origin", "origin_", "terminal", "terminal_", "dir", "dir_", "a", "b", "c", "a_", "b_", "c_",
              "center", "center_", "radius", "radius_min", "radius_max", "angle_left_start", "angle_left_start_",
              "angle_right_end", "angle_right_end_", "copy", "swap", "reverse", "reversed_segment", "is_valid",
              "vertices", "vertices_", "add_vertex", "add_point", "add_points", "input_points", "input_points_"}
              \cup LiveMut \cup (PeekOps \ {"peek_line"})
RECURSIVE AnyInvalid(_)
AnyInvalid(v) ==
    CASE v.t = "vec" -> ~v.ok
      [] v.t = "ray" -> ~v.o.ok
      [] v.t = "seg" -> ~v.o.ok \/ ~v.e.ok
      [] v.t = "tri" -> ~v.a.ok \/ ~v.b.ok \/ ~v.c.ok
      [] v.t \in {"circ", "sect"} -> ~v.c.ok
      [] v.t \in {"poly", "list"} -> \E i \in 1..Len(v.v) : AnyInvalid(v.v[i])
      [] v.t = "hull" -> \E i \in 1..Len(v.i) : ~v.i[i].ok
      [] OTHER -> FALSE
InDomain(c, m, A) ==
    /\ c = "vec" \/ m \in StructOps \cup BadOps \/ \A i \in 1..Len(A) : ~AnyInvalid(A[i])
    /\ ~(c = "poly" /\ m = "dist" /\ Len(A[1].v) = 0)
    /\ \A i \in 1..Len(A) : A[i].t = "line" => Proper(A[i]) \/ m \in {"newL", "newl", "copy", "a", "b", "c"}

MayRaise(c, m) == m \in BadOps \/ (c = "circ" /\ m = "quadratic_f")

Judge(c, m, A, r, P, g) ==
    LET n == Len(A) mu == Mutates(c, m) IN
    IF \E i \in 1..n : A[i].t = "bad" THEN Unk           \* outside the domain: not finite
    ELSE C("argument-changed", \A i \in 1..n : (i \notin mu) => P[i] = A[i])
         \cup (IF ~InDomain(c, m, A) THEN Unk
               ELSE IF \E i \in 1..n : P[i].t = "bad" THEN {"not-finite"}
               ELSE IF \E i \in 1..n : P[i].t # A[i].t THEN {"post-type"}
               ELSE IF r.t = "exc" /\ ~MayRaise(c, m) THEN {"raised"}
               ELSE IF r.t = "bad" THEN {"not-finite"}
               ELSE Clauses(c, m, A, r, P, g))

\* Results identical to an argument: only methods documented to return it.
ReturnsArg(c, m, j) == j \in Mutates(c, m)
Frame(c, m, same, elsewhere, changed, mutable) ==
    C("result-aliases-argument", same = 0 \/ ReturnsArg(c, m, same))
    \cup C("result-aliases-object", elsewhere = 0)
    \cup C("other-object-changed", changed \subseteq mutable)
=============================================================================
