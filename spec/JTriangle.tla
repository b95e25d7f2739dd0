----------------------------- MODULE JTriangle -----------------------------
(***************************************************************************)
(* Triangle2D, and the crossings of a line / ray / segment with the        *)
(* boundary of a convex region given by its corners (also used for Rect2D).*)
(***************************************************************************)
EXTENDS JSegment

TMk(a, b, c) == [t |-> "tri", a |-> a, b |-> b, c |-> c]
TSc(k) == RMax(VSc(k.a), RMax(VSc(k.b), VSc(k.c)))
TArea2(k) == Area2(k.a, k.b, k.c)
TLong2(k) == RMax(D2(k.a, k.b), RMax(D2(k.b, k.c), D2(k.c, k.a)))

\* --- results that are sets of points ---------------------------------------
PtNear(v, p, tol) == v.t = "vec" /\ v.ok /\ Near(v.x, p.x, tol) /\ Near(v.y, p.y, tol)
JPointSet(pts, want, tol) ==
    C("count", Len(pts) = Len(want))
    \cup C("points", /\ \A i \in 1..Len(want) : \E j \in 1..Len(pts) : PtNear(pts[j], want[i], tol)
                     /\ \A j \in 1..Len(pts) : \E i \in 1..Len(want) : PtNear(pts[j], want[i], tol))

\* --- boundary crossings ------------------------------------------------------
Nxt(i, n) == IF i = n THEN 1 ELSE i + 1
CrossPt(p, q, l) == LET a == At(l, p) b == At(l, q) k == a (/) (a (-) b)
                    IN VAdd(p, VMul(VSub(q, p), k))
RECURSIVE HitsFrom(_, _, _)
HitsFrom(vs, l, i) ==
    IF i > Len(vs) THEN <<>>
    ELSE LET p == vs[i] q == vs[Nxt(i, Len(vs))]
             a == RSgn(At(l, p)) b == RSgn(At(l, q))
         IN (IF a = 0 THEN <<Vec(p.x, p.y)>>
             ELSE IF a * b < 0 THEN <<CrossPt(p, q, l)>> ELSE <<>>)
            \o HitsFrom(vs, l, i + 1)
Hits(vs, l) == HitsFrom(vs, l, 1)
\* is the combinatorial situation certain?
HitsSure(vs, l, g) ==
    LET n == Len(vs) IN
    \A i \in 1..n :
       LET p == vs[i] q == vs[Nxt(i, n)]
           d == RAbs(At(l, p) (-) At(l, q))
       IN /\ g \/ RAbs(At(l, p)) \succ (E7 (.) (AtS(l, p) (+) LNrm(l)))
          /\ (g /\ d = Z) \/ d \succ (Two (.) EPSILON)
\* an edge (nearly) parallel to the line and clearly off it does not matter when not exact
HitsSureOff(vs, l) ==
    LET n == Len(vs) IN
    \A i \in 1..n :
       LET p == vs[i] q == vs[Nxt(i, n)]
           a == At(l, p) b == At(l, q)
       IN /\ RAbs(a) \succ ((E5 (.) LNrm(l)) (+) (E7 (.) (AtS(l, p) (+) LNrm(l))))
          /\ RSgn(a) * RSgn(b) > 0 \/ RAbs(a (-) b) \succ (Two (.) EPSILON)
Certain(vs, l, g) == IF g THEN HitsSure(vs, l, TRUE) ELSE HitsSureOff(vs, l)
HitTol(vs, l) == LET s == RMax(VSc(vs[1]), VSc(vs[2])) (+) RMax(VSc(vs[3]), Z)
                 IN E8 (.) AtLeast1(s (+) (RAbs(l.c) (/) LNrm(l)))

Keep(ps, keep(_)) == SelectSeq(ps, LAMBDA x : keep(x) = "T")
\* What holds even where rounding decides whether a corner or an edge (nearly) along the line counts: only points of line
\* and outline that may be kept, no two of them the same, and no clear crossing is missing.
RoughTol(vs, l) == (E4 (.) Half) (+) (E6 (.) RMax(VSc(vs[1]), RMax(VSc(vs[2]), VSc(vs[3]))) (+) (E6 (.) (RAbs(l.c) (/) LNrm(l))))
NearEdge(x, p, q, tol) ==
    LET w == VSub(q, p) c == Cross(w, VSub(x, p))
    IN /\ (c (.) c) \preceq (tol (.) tol (.) N2(w))
       /\ (RMin(p.x, q.x) (-) tol) \preceq x.x /\ x.x \preceq (RMax(p.x, q.x) (+) tol)
       /\ (RMin(p.y, q.y) (-) tol) \preceq x.y /\ x.y \preceq (RMax(p.y, q.y) (+) tol)
ClearCross(p, q, l, tol) ==
    LET a == At(l, p) b == At(l, q)
    IN /\ RSgn(a) * RSgn(b) < 0
       /\ RMin(RAbs(a), RAbs(b)) \succ (RInt(10) (.) tol (.) LNrm(l))
       /\ RAbs(a (-) b) \succ (RFrac(1, 100) (.) LNrm(l) (.) Norm(VSub(p, q)))
       /\ RAbs(a (-) b) \succ (Two (.) EPSILON)
Rough(pts, vs, l, keep(_)) ==
    LET n == Len(vs) tol == RoughTol(vs, l)
        ok == \A j \in 1..Len(pts) : pts[j].t = "vec" /\ pts[j].ok
        bad == IF ~ok THEN {"points"}
               ELSE C("count", Len(pts) <= 2)
                    \cup C("on-line", \A j \in 1..Len(pts) : RAbs(At(l, pts[j])) \preceq (tol (.) LNrm(l)))
                    \cup C("on-outline", \A j \in 1..Len(pts) : \E i \in 1..n : NearEdge(pts[j], vs[i], vs[Nxt(i, n)], tol))
                    \cup C("kept", \A j \in 1..Len(pts) : keep(pts[j]) # "F")
                    \cup C("distinct", \A i, j \in 1..Len(pts) : i < j => VSc(VSub(pts[i], pts[j])) \succ E7)
                    \cup C("missing", Len(pts) >= 2 \/ \A i \in 1..n :
                             LET p == vs[i] q == vs[Nxt(i, n)] x == CrossPt(p, q, l)
                             IN (ClearCross(p, q, l, tol) /\ keep(x) = "T")
                                => \E j \in 1..Len(pts) : VSc(VSub(pts[j], x)) \preceq tol)
        \* solving for the crossing with an edge almost along the line is hopeless unless the library calls them parallel
        sane == \A i \in 1..n :
                  LET p == vs[i] q == vs[Nxt(i, n)] d == RAbs(At(l, p) (-) At(l, q))
                  IN d \prec (EPSILON (/) Two) \/ d \succ (E6 (.) LNrm(l) (.) Norm(VSub(p, q)))
    IN IF ~sane THEN Unk ELSE IF bad = {} THEN Unk ELSE bad
JHits(pts, vs, l, g, keep(_)) ==
    IF ~Certain(vs, l, g) THEN Rough(pts, vs, l, keep)
    ELSE LET h == Hits(vs, l)
         IN IF \E i \in 1..Len(h) : keep(h[i]) = "?" THEN Rough(pts, vs, l, keep)
            \* closer than the library tells points apart
            ELSE IF \E i, j \in 1..Len(h) : i < j /\ VSc(VSub(h[i], h[j])) \prec E5 THEN Unk
            ELSE JPointSet(pts, Keep(h, keep), HitTol(vs, l))
JHitsLine(pts, vs, l, g) == IF ~Proper(l) THEN Unk ELSE JHits(pts, vs, l, g, LAMBDA x : "T")
JHitsRay(pts, vs, y) == LET l == RayLine(y) IN
                        JHits(pts, vs, l, FALSE, LAMBDA x : Front3(y, x, HitTol(vs, l)))
JHitsSeg(pts, vs, s, g) ==
    IF Degenerate(s) THEN Unk
    ELSE LET l == SegLine(s)
         IN JHits(pts, vs, l, g,
                  LAMBDA x : IF g THEN AlongExact3(s, x) ELSE Along3(s, x, HitTol(vs, l)))

\* --- triangle centres ------------------------------------------------------------
Centroid(k) == VMul(VAdd(VAdd(k.a, k.b), k.c), One (/) RInt(3))
Circumcentre(k) ==
    LET u == VSub(k.b, k.a) v == VSub(k.c, k.a) d == Two (.) Cross(u, v)
    IN Vec(k.a.x (+) (((N2(u) (.) v.y) (-) (N2(v) (.) u.y)) (/) d),
           k.a.y (+) (((u.x (.) N2(v)) (-) (v.x (.) N2(u))) (/) d))
Orthocentre(k) == VSub(VAdd(VAdd(k.a, k.b), k.c), VMul(Circumcentre(k), Two))
Incentre(k) == LET a == Dist(k.b, k.c) b == Dist(k.c, k.a) c == Dist(k.a, k.b)
               IN VMul(VAdd(VAdd(VMul(k.a, a), VMul(k.b, b)), VMul(k.c, c)),
                       One (/) (a (+) b (+) c))
\* conditioning of the centres
TCond(k) == LET s == AtLeast1(TSc(k)) IN s (+) ((Sq(s) (.) RSqrt(TLong2(k))) (/) RAbs(TArea2(k)))
CTol(k) == (E11 (.) (TCond(k) (+) ((TLong2(k) (.) TSc(k)) (/) RAbs(TArea2(k)))))
           \* the relative error of the determinant, at the distance of the centre
           (+) (E13 (.) VSc(Circumcentre(k)) (.) ((TSc(k) (.) RSqrt(TLong2(k))) (/) RAbs(TArea2(k))) (.) RFrac(1, 10))

\* closed triangle, either orientation
Inside3(k, p, g) ==
    LET a == Area2(k.a, k.b, p) b == Area2(k.b, k.c, p) c == Area2(k.c, k.a, p)
        m == IF g THEN Z ELSE Rel11(Sq(TSc(k) (+) VSc(p)))
        pos == All3(<<NonNeg3(a, m), NonNeg3(b, m), NonNeg3(c, m)>>)
        neg == All3(<<NonNeg3(RNeg(a), m), NonNeg3(RNeg(b), m), NonNeg3(RNeg(c), m)>>)
    IN Or3(pos, neg)

AreaTol(k) == Rel12(Sq(Two (.) TSc(k)))
AllDistinct(k) == ~Same(k.a, k.b) /\ ~Same(k.b, k.c) /\ ~Same(k.c, k.a)
\* no two corners within the library's epsilon
Spread(k) == LET f(p, q) == VSc(VSub(p, q)) \succ (Two (.) EPSILON)
             IN f(k.a, k.b) /\ f(k.b, k.c) /\ f(k.c, k.a)
JCentre(which, r, k, g) ==
    LET d == RAbs(TArea2(k))
        flatOnGrid == g /\ d = Z /\ AllDistinct(k)     \* three distinct collinear points
    IN
    CASE which = "centroid" -> JVec(r, Centroid(k), Rel12(TSc(k)))
      [] which = "circumcenter" ->
            IF flatOnGrid THEN JInvalid(r)
            ELSE IF d \prec E8 \/ d \prec (E12 (.) Sq(TSc(k))) \/ ~Spread(k) THEN Unk ELSE JVec(r, Circumcentre(k), CTol(k))
      [] which = "orthocenter" ->
            IF flatOnGrid THEN JInvalid(r)
            ELSE IF d \prec (Two (.) EPSILON) \/ d \prec (E12 (.) Sq(TSc(k))) THEN Unk ELSE JVec(r, Orthocentre(k), RInt(4) (.) CTol(k))
      [] which = "incenter" ->
            IF d \prec E4 \/ d \prec (RFrac(1, 100) (.) TLong2(k)) THEN Unk
            ELSE JVec(r, Incentre(k), E9 (.) AtLeast1(TSc(k)))

JTriangle(m, A, r, P, g) ==
    LET k == A[1]
        st == TMk(A[1], A[2], A[3])
        TriPts == IF r.t # "list" \/ Len(r.v) < 1 THEN <<>>
                  ELSE SubSeq(r.v, 2, 1 + RToInt(r.v[1].v))
        TriShape == r.t = "list" /\ Len(r.v) >= 1 /\ r.v[1].t = "num"
                    /\ r.v[1].v \in {RInt(0), RInt(1), RInt(2)} /\ Len(r.v) > RToInt(r.v[1].v)
        vs == <<k.a, k.b, k.c>>
        flat == TArea2(k) = Z \/ RAbs(TArea2(k)) \prec (E5 (.) TLong2(k))
    IN CASE m = "new3" -> JSame(r, TMk(A[1], A[2], A[3]))
         [] m = "newSP" -> JSame(r, TMk(A[1].o, A[1].e, A[2]))
         [] m = "assign3" -> JSame(P[1], TMk(A[2], A[3], A[4])) \cup JSame(r, P[1])
         [] m = "assignSP" -> JSame(P[1], TMk(A[2].o, A[2].e, A[3])) \cup JSame(r, P[1])
         [] m = "bad" -> JExc(r)
         [] m \in {"a", "a_"} -> JSame(r, k.a)
         [] m \in {"b", "b_"} -> JSame(r, k.b)
         [] m \in {"c", "c_"} -> JSame(r, k.c)
         [] m = "is_valid" -> JBool(r, T3(/\ k.a.ok /\ k.b.ok /\ k.c.ok
                                          /\ ~Same(k.a, k.b) /\ ~Same(k.b, k.c) /\ ~Same(k.c, k.a)))
         [] m = "area" -> JNum(r, RAbs(TArea2(k)) (/) Two, AreaTol(k))
         [] m = "signed_area" -> JNum(r, TArea2(k) (/) Two, AreaTol(k))
         [] m = "double_signed_area" -> JNum(r, TArea2(k), AreaTol(k))
         [] m = "signed_area_st" -> JNum(r, TArea2(st) (/) Two, AreaTol(st))
         [] m = "double_signed_area_st" -> JNum(r, TArea2(st), AreaTol(st))
         [] m = "ccw" -> JBool(r, Pos3(TArea2(k), IF g THEN Z ELSE AreaTol(k)))
         [] m = "tri_ccw" -> JBool(r, Pos3(TArea2(st), IF g THEN Z ELSE AreaTol(st)))
         [] m = "contains" -> IF flat THEN Unk ELSE JBool(r, Inside3(k, A[2], g))
         [] m = "tri_contains" -> IF TArea2(st) = Z \/ RAbs(TArea2(st)) \prec (E5 (.) TLong2(st)) THEN Unk
                                  ELSE JBool(r, Inside3(st, A[4], g))
         [] m \in {"centroid", "circumcenter", "orthocenter", "incenter"} -> JCentre(m, r, k, g)
         [] m = "tri_centroid" -> JCentre("centroid", r, st, g)
         [] m = "tri_circumcenter" -> JCentre("circumcenter", r, st, g)
         [] m = "tri_orthocenter" -> JCentre("orthocenter", r, st, g)
         [] m = "tri_incenter" -> JCentre("incenter", r, st, g)
         [] m = "intersectionL" -> IF ~TriShape THEN {"type"} ELSE IF flat THEN Unk ELSE JHitsLine(TriPts, vs, A[2], g)
         [] m = "intersectionR" -> IF ~TriShape THEN {"type"} ELSE IF flat THEN Unk ELSE JHitsRay(TriPts, vs, A[2])
         [] m = "intersectionS" -> IF ~TriShape THEN {"type"} ELSE IF flat THEN Unk ELSE JHitsSeg(TriPts, vs, A[2], g)
         [] OTHER -> {"unknown-op"}
=============================================================================
