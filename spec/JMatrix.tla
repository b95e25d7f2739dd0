------------------------------ MODULE JMatrix ------------------------------
(***************************************************************************)
(* Matrix2D: the affine map  x' = a x + b y + x0,  y' = c x + d y + y0.    *)
(***************************************************************************)
EXTENDS Val

MMk(a, b, c, d, x, y) == [t |-> "mat", a |-> a, b |-> b, c |-> c, d |-> d, x |-> x, y |-> y]
MId == MMk(One, Z, Z, One, Z, Z)
MApply(m, p) == Vec((m.a (.) p.x) (+) (m.b (.) p.y) (+) m.x, (m.c (.) p.x) (+) (m.d (.) p.y) (+) m.y)
\* composition: (m o n)(p) = m(n(p))
MComp(m, n) == MMk((m.a (.) n.a) (+) (m.b (.) n.c), (m.a (.) n.b) (+) (m.b (.) n.d),
                   (m.c (.) n.a) (+) (m.d (.) n.c), (m.c (.) n.b) (+) (m.d (.) n.d),
                   (m.a (.) n.x) (+) (m.b (.) n.y) (+) m.x, (m.c (.) n.x) (+) (m.d (.) n.y) (+) m.y)
MTrans(x, y) == MMk(One, Z, Z, One, x, y)
MScale(x, y) == MMk(x, Z, Z, y, Z, Z)
MRot(deg) == LET u == Unit(deg) IN MMk(u.x, RNeg(u.y), u.y, u.x, Z, Z)
MDet(m) == (m.a (.) m.d) (-) (m.b (.) m.c)
MSc(m) == MaxAbs(<<m.a, m.b, m.c, m.d, m.x, m.y>>)
JMat(v, w, tol) == IF v.t # "mat" THEN {"type"}
    ELSE C("m11", Near(v.a, w.a, tol)) \cup C("m12", Near(v.b, w.b, tol))
         \cup C("m21", Near(v.c, w.c, tol)) \cup C("m22", Near(v.d, w.d, tol))
         \cup C("dx", Near(v.x, w.x, tol)) \cup C("dy", Near(v.y, w.y, tol))

JMatrix(m, A, r, P, g) ==
    LET k == A[1]
        o == A[2]
        x == A[2].v
        y == A[3].v
        s == AtLeast1(MSc(k))
        det == MDet(k)
        ls == RMax(RMax(RAbs(k.a), RAbs(k.b)), RMax(RAbs(k.c), RAbs(k.d)))     \* linear part
        ts == RMax(RAbs(k.x), RAbs(k.y))                                       \* translation
    IN CASE m = "new0" -> JSame(r, MId)
         [] m = "new6" -> JSame(r, MMk(A[1].v, A[2].v, A[3].v, A[4].v, A[5].v, A[6].v))
         [] m = "reset" -> JSame(P[1], MId)
         [] m = "assign" -> JSame(P[1], MMk(A[2].v, A[3].v, A[4].v, A[5].v, A[6].v, A[7].v))
         [] m = "m11" -> JNum(r, k.a, Z)
         [] m = "m12" -> JNum(r, k.b, Z)
         [] m = "m21" -> JNum(r, k.c, Z)
         [] m = "m22" -> JNum(r, k.d, Z)
         [] m = "dxtf" -> JNum(r, k.x, Z)
         [] m = "dytf" -> JNum(r, k.y, Z)
         [] m = "det" -> JNum(r, det, Rel12(Sq(MSc(k))))
         [] m = "invertible" -> JBool(r, Lt3(EPSILON, RAbs(det), IF g THEN Z ELSE E13 (.) Sq(s)))
         [] m = "inverted" ->
                IF r.t # "mat" THEN {"type"}
                ELSE IF g /\ det = Z THEN JSame(r, MId)
                ELSE IF RAbs(det) \preceq (E5 (.) Sq(ls)) THEN Unk
                ELSE LET cond == Sq(ls) (/) RAbs(det)
                         tol == E11 (.) cond (.) AtLeast1(RMax(cond (.) ts, (ls (.) ts) (/) RAbs(det)))
                     IN JMat(MComp(k, r), MId, tol) \cup JMat(MComp(r, k), MId, tol)
         [] m = "translate" -> JMat(P[1], MComp(MTrans(x, y), k), Tol12(RMax(s, RMax(RAbs(x), RAbs(y)))))
         [] m = "scale" -> JMat(P[1], MComp(MScale(x, y), k), Tol12(s (.) RMax(RAbs(x), RAbs(y))))
         [] m = "rotate" -> JMat(P[1], MComp(MRot(o.d), k), Tol11(s))
         [] m = "transformV" -> JVec(r, MApply(k, o), Tol12(s (.) AtLeast1(VSc(o))))
         [] m = "transformXY" -> JVec(r, MApply(k, Vec(x, y)), Tol12(s (.) AtLeast1(RMax(RAbs(x), RAbs(y)))))
         [] m = "transform_vec" -> JXY(P[2], MApply(k, o), Tol12(s (.) AtLeast1(VSc(o))))
                                   \cup C("flag", P[2].ok = o.ok) \cup JSame(r, P[2])
         [] m = "make_translation" -> JMat(r, MTrans(A[1].v, A[2].v), Z)
         [] m = "make_scaling" -> JMat(r, MScale(A[1].v, A[2].v), Z)
         [] m = "make_rotation" -> JMat(r, MRot(A[1].d), E12)
         [] m = "mulM" -> JMat(r, MComp(k, o), Tol12(RInt(3) (.) s (.) AtLeast1(MSc(o))))
         [] m = "mulV" -> JVec(r, MApply(k, o), Tol12(s (.) AtLeast1(VSc(o))))
         [] m = "imul" -> JMat(P[1], MComp(k, o), Tol12(RInt(3) (.) s (.) AtLeast1(MSc(o)))) \cup JSame(r, P[1])
         [] m = "eq" -> JBool(r, T3(k = o))
         [] OTHER -> {"unknown-op"}
=============================================================================
