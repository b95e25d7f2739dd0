-------------------------------- MODULE Val --------------------------------
(***************************************************************************)
(* The abstract values of the API (what the public accessors of an object  *)
(* report) and the elementary geometry on them.                             *)
(*                                                                         *)
(*   num  v                     ang  d (degrees)      bool v    none        *)
(*   vec  x y ok                line a b c            ray  o d              *)
(*   seg  o e                   circ c r              sect c r0 r1 s e      *)
(*   size l w                   rect x0 y0 x1 y1 l w (left top right bottom)*)
(*   tri  a b c                 mat  a b c d x y      poly v                *)
(*   hull i v e                 list v                exc  n     bad        *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets

Vec(x, y) == [t |-> "vec", x |-> x, y |-> y, ok |-> TRUE]
Inv == [t |-> "vec", x |-> Z, y |-> Z, ok |-> FALSE]

VAdd(p, q) == Vec(p.x (+) q.x, p.y (+) q.y)
VSub(p, q) == Vec(p.x (-) q.x, p.y (-) q.y)
VMul(p, k) == Vec(p.x (.) k, p.y (.) k)
Dot(p, q)   == (p.x (.) q.x) (+) (p.y (.) q.y)
Cross(p, q) == (p.x (.) q.y) (-) (p.y (.) q.x)
N2(p) == Dot(p, p)
Norm(p) == RSqrt(N2(p))
D2(p, q) == N2(VSub(p, q))
Dist(p, q) == RSqrt(D2(p, q))
Same(p, q) == p.x = q.x /\ p.y = q.y
\* twice the signed area of the triangle p q r (positive: counter-clockwise)
Area2(p, q, r) == Cross(VSub(q, p), VSub(r, p))
VSc(p) == RMax(RAbs(p.x), RAbs(p.y))
Unit(deg) == Vec(CosD(deg), SinD(deg))

\* numeric degrees of an argument that may be an angle or a number
Deg(v) == IF v.t = "ang" THEN v.d ELSE v.v

\* --- verdicts on results ---------------------------------------------------
JNum(r, want, tol) == IF r.t # "num" THEN {"type"} ELSE C("value", Near(r.v, want, tol))
JBool(r, b3) == IF r.t # "bool" THEN {"type"}
                ELSE IF b3 = "?" THEN Unk ELSE C("truth", r.v = (b3 = "T"))
JVec(r, p, tol) == IF r.t # "vec" THEN {"type"}
                   ELSE C("valid", r.ok) \cup C("x", Near(r.x, p.x, tol))
                                         \cup C("y", Near(r.y, p.y, tol))
\* the vector's coordinates, whatever its validity flag
JXY(r, p, tol) == IF r.t # "vec" THEN {"type"}
                  ELSE C("x", Near(r.x, p.x, tol)) \cup C("y", Near(r.y, p.y, tol))
JInvalid(r) == IF r.t # "vec" THEN {"type"} ELSE C("invalid", ~r.ok)
JSame(r, v) == C("same", r = v)
JType(r, t) == C("type", r.t = t)
\* an angle value: normalised and congruent to x
JAng(r, x, tol) == IF r.t # "ang" THEN {"type"}
                   ELSE C("range", RAbs(r.d) \preceq D180)
                        \cup C("congruent", CircDist(r.d, x) \preceq tol)
\* the direction (degrees d) of the non-zero vector w, to relative tolerance tol
DirOf(d, w, tol) == LET u == Unit(d) n == Norm(w)
                    IN RAbs(Cross(u, w)) \preceq (tol (.) n) /\ RSgn(Dot(u, w)) > 0
JDir(r, w, tol) == IF r.t # "ang" THEN {"type"}
                   ELSE C("range", RAbs(r.d) \preceq D180) \cup C("direction", DirOf(r.d, w, tol))
JExc(r) == C("exception", r.t = "exc")
=============================================================================
