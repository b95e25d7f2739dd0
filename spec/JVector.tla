------------------------------ MODULE JVector ------------------------------
(***************************************************************************)
(* Vector2D: a mutable pair of coordinates with a validity flag.           *)
(***************************************************************************)
EXTENDS Val

VT(p) == Rel12(VSc(p))
\* receiver's coordinates become p, its validity flag stays
Becomes(P1, A1, p, tol) == JXY(P1, p, tol) \cup C("flag", P1.ok = A1.ok)
\* operand given as a vector (A[2]) or as two numbers (A[2], A[3])
Operand(A) == IF A[2].t = "vec" THEN A[2] ELSE Vec(A[2].v, A[3].v)

Rotated(p, deg) == LET u == Unit(deg)
                   IN Vec((p.x (.) u.x) (-) (p.y (.) u.y), (p.x (.) u.y) (+) (p.y (.) u.x))
\* rotations by a plain number go through deg * pi / 180 unreduced
RotTol(p, deg) == (E12 (+) (E13 (.) RAbs(deg))) (.) VSc(p)
Polar(len, deg) == VMul(Unit(deg), len)

\* rescaled to length len; vectors shorter than EPSILON are left alone
ScaledTo(p, len) == VMul(p, len (/) Norm(p))
JSetLength(v, p, len) ==
    LET n == Norm(p) IN
    IF Near(n, EPSILON, E10) THEN Unk
    ELSE IF n \prec EPSILON THEN JXY(v, p, Z)
    ELSE JXY(v, ScaledTo(p, len), Rel11(len))

JVector(m, A, r, P, g) ==
    LET v == A[1]
        w == A[2]
        k == A[2].v
        Self == JSame(r, P[1])
        Xy(p, tol) == JVec(r, p, tol)
        exact == IF g THEN Z ELSE E12
    IN CASE m = "new0" -> Xy(Vec(Z, Z), Z)
         [] m \in {"new", "newxy"} -> Xy(Vec(A[1].v, A[2].v), Z)
         [] m \in {"newV", "copy", "get_copy"} -> JSame(r, v)
         [] m \in {"newra", "from_polar", "polar2vector"} ->
                Xy(Polar(A[1].v, Deg(A[2])), (E12 (+) (E13 (.) RAbs(Deg(A[2])))) (.) RAbs(A[1].v))
         [] m = "bad" -> JExc(r)
         [] m \in {"x", "get_x"} -> JNum(r, v.x, Z)
         [] m \in {"y", "get_y"} -> JNum(r, v.y, Z)
         [] m = "is_valid" -> JBool(r, T3(v.ok))
         [] m = "validate" -> JXY(P[1], v, Z) \cup C("flag", P[1].ok)
         [] m = "invalidate" -> JXY(P[1], v, Z) \cup C("flag", ~P[1].ok)
         [] m = "invalid" -> JInvalid(r)
         [] m = "assign" -> Becomes(P[1], v, Vec(k, A[3].v), Z) \cup Self
         [] m = "set_x" -> Becomes(P[1], v, Vec(k, v.y), Z)
         [] m = "set_y" -> Becomes(P[1], v, Vec(v.x, k), Z)
         [] m = "set_x_y" -> Becomes(P[1], v, Vec(k, A[3].v), Z)
         [] m = "set_vector" -> JSame(P[1], w)
         [] m = "set_polar" ->
                Becomes(P[1], v, Polar(k, Deg(A[3])), (E12 (+) (E13 (.) RAbs(Deg(A[3])))) (.) RAbs(k))
         [] m = "add" -> Becomes(P[1], v, VAdd(v, Operand(A)), RMax(VT(v), VT(Operand(A))))
         [] m = "sub" -> Becomes(P[1], v, VSub(v, Operand(A)), RMax(VT(v), VT(Operand(A))))
         [] m = "add_x" -> Becomes(P[1], v, Vec(v.x (+) k, v.y), RMax(VT(v), Rel12(k)))
         [] m = "add_y" -> Becomes(P[1], v, Vec(v.x, v.y (+) k), RMax(VT(v), Rel12(k)))
         [] m = "sub_x" -> Becomes(P[1], v, Vec(v.x (-) k, v.y), RMax(VT(v), Rel12(k)))
         [] m = "sub_y" -> Becomes(P[1], v, Vec(v.x, v.y (-) k), RMax(VT(v), Rel12(k)))
         [] m = "scale" -> Becomes(P[1], v, VMul(v, k), Rel12(VSc(v) (.) k))
         [] m = "reverse" -> Becomes(P[1], v, VMul(v, RInt(-1)), Z) \cup Self
         [] m = "reverse_vector" -> Xy(VMul(v, RInt(-1)), Z)
         [] m = "abs" -> Xy(Vec(RAbs(v.x), RAbs(v.y)), Z)
         [] m = "abs_x" -> JNum(r, RAbs(v.x), Z)
         [] m = "abs_y" -> JNum(r, RAbs(v.y), Z)
         [] m \in {"r", "length"} -> JNum(r, Norm(v), VT(v))
         [] m \in {"r2", "length2"} -> JNum(r, N2(v), Rel12(N2(v)))
         [] m \in {"th", "dir"} ->
                IF Near(VSc(v), EPSILON, E12) THEN Unk
                ELSE IF VSc(v) \prec EPSILON THEN JAng(r, Z, Z)
                ELSE JDir(r, v, E12)
         [] m = "dist" -> JNum(r, Dist(v, w), RMax(VT(v), VT(w)))
         [] m = "dist2" -> JNum(r, D2(v, w), Rel12(Sq(VSc(v) (+) VSc(w))))
         [] m \in {"inner_product", "inner_product_static"} ->
                JNum(r, Dot(v, w), Rel12(VSc(v) (.) VSc(w)))
         [] m \in {"outer_product", "outer_product_static"} ->
                JNum(r, Cross(v, w), Rel12(VSc(v) (.) VSc(w)))
         [] m \in {"equals", "eq"} -> JBool(r, T3(Same(v, w)))
         [] m = "ne" -> JBool(r, T3(~Same(v, w)))
         [] m = "eq_other" -> JBool(r, "F")
         [] m = "hash_eq" -> IF Same(v, w) THEN JBool(r, "T") ELSE Ok
         [] m = "equals_weakly" ->
                JBool(r, And3(Lt3(RAbs(v.x (-) w.x), EPSILON, Tol12(VSc(v)) (.) E3),
                              Lt3(RAbs(v.y (-) w.y), EPSILON, Tol12(VSc(v)) (.) E3)))
         [] m = "rotate" -> Becomes(P[1], v, Rotated(v, Deg(w)), RotTol(v, Deg(w))) \cup Self
         [] m = "rotated_vector" -> Xy(Rotated(v, Deg(w)), RotTol(v, Deg(w)))
         [] m = "set_dir" -> Becomes(P[1], v, Polar(Norm(v), Deg(w)), RotTol(v, Deg(w)))
         [] m = "set_length" -> JSetLength(P[1], v, k) \cup C("flag", P[1].ok = v.ok)
         [] m = "set_length_vector" -> JSetLength(r, v, k)
         [] m = "normalize" -> JSetLength(P[1], v, One) \cup C("flag", P[1].ok = v.ok)
         [] m = "normalize_vector" -> JSetLength(r, v, One)
         [] m = "plus" -> Xy(VAdd(v, w), RMax(VT(v), VT(w)))
         [] m = "minus" -> Xy(VSub(v, w), RMax(VT(v), VT(w)))
         [] m = "times" -> Xy(VMul(v, k), Rel12(VSc(v) (.) k))
         [] m = "over" -> Xy(VMul(v, One (/) k), Rel12(VSc(v) (/) k))
         [] m = "iadd" -> Becomes(P[1], v, VAdd(v, w), RMax(VT(v), VT(w))) \cup Self
         [] m = "isub" -> Becomes(P[1], v, VSub(v, w), RMax(VT(v), VT(w))) \cup Self
         [] m = "imul" -> Becomes(P[1], v, VMul(v, k), Rel12(VSc(v) (.) k)) \cup Self
         [] m = "itruediv" -> Becomes(P[1], v, VMul(v, One (/) k), Rel12(VSc(v) (/) k)) \cup Self
         [] OTHER -> {"unknown-op"}
=============================================================================
