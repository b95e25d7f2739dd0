------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* Agreement of the functional (Fun, Fig) and the relational semantics      *)
(* (PyrusGeom) on one call: the relational one accepts the computed         *)
(* outcome, and rejects it after any perturbation.                          *)
(***************************************************************************)
EXTENDS Fig

I(k) == RInt(k)
N(k) == NumV(RInt(k))
P2(x, y) == Vec(RInt(x), RInt(y))

\* --- perturbed values ---------------------------------------------------------------------
Eighth == RFrac(1, 8)
BV(p) == <<[p EXCEPT !.x = @ (+) Eighth], [p EXCEPT !.y = @ (-) Eighth]>>
Put(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
SeqBumps(s) == (IF s = <<>> THEN <<>> ELSE <<Tail(s)>>) \o <<Append(s, P2(7, 7))>>
Bumps(v) ==
    CASE v.t = "num" -> <<NumV(v.v (+) Eighth)>>
      [] v.t = "bool" -> <<BoolV(~v.v)>>
      [] v.t = "ang" -> <<AngV(NormD(v.d (+) I(45)))>>
      [] v.t = "vec" -> BV(v)
      [] v.t = "line" -> <<[v EXCEPT !.c = @ (+) One], [v EXCEPT !.a = v.a (-) (v.b (.) Eighth), !.b = v.b (+) (v.a (.) Eighth)]>>
      [] v.t = "ray" -> LET U(x) == [v EXCEPT !.o = x] IN Put(BV(v.o), U) \o <<[v EXCEPT !.d = NormD(@ (+) I(45))]>>
      [] v.t = "seg" -> LET U(x) == [v EXCEPT !.o = x] U2(x) == [v EXCEPT !.e = x] IN Put(BV(v.o), U) \o Put(BV(v.e), U2)
      [] v.t = "tri" -> LET U(x) == [v EXCEPT !.a = x] U2(x) == [v EXCEPT !.b = x] U3(x) == [v EXCEPT !.c = x]
                        IN Put(BV(v.a), U) \o Put(BV(v.b), U2) \o Put(BV(v.c), U3)
      [] v.t = "circ" -> LET U(x) == [v EXCEPT !.c = x] IN Put(BV(v.c), U) \o <<[v EXCEPT !.r = @ (+) Eighth]>>
      [] v.t = "sect" -> LET U(x) == [v EXCEPT !.c = x]
                         IN Put(BV(v.c), U) \o <<[v EXCEPT !.r0 = @ (+) Eighth], [v EXCEPT !.r1 = @ (+) Eighth],
                                                 [v EXCEPT !.s = NormD(@ (+) I(45))], [v EXCEPT !.e = NormD(@ (+) I(45))]>>
      [] v.t = "size" -> <<ZMk(v.l (+) Eighth, v.w), ZMk(v.l, v.w (+) Eighth)>>
      [] v.t = "rect" -> <<RectMk(v.x0 (+) Eighth, v.y0, v.l, v.w), RectMk(v.x0, v.y0 (+) Eighth, v.l, v.w),
                           RectMk(v.x0, v.y0, v.l (+) Eighth, v.w), RectMk(v.x0, v.y0, v.l, v.w (+) Eighth)>>
      [] v.t = "mat" -> <<[v EXCEPT !.a = @ (+) Eighth], [v EXCEPT !.b = @ (+) Eighth], [v EXCEPT !.c = @ (+) Eighth],
                          [v EXCEPT !.d = @ (+) Eighth], [v EXCEPT !.x = @ (+) Eighth], [v EXCEPT !.y = @ (+) Eighth]>>
      [] v.t \in {"poly", "list"} -> LET U(x) == [v EXCEPT !.v = x] IN Put(SeqBumps(v.v), U)
      [] v.t = "hull" -> LET U(x) == [v EXCEPT !.i = x] U2(x) == [v EXCEPT !.v = x]
                         IN Put(SeqBumps(v.i), U) \o Put(SeqBumps(v.v), U2)
      [] OTHER -> <<>>

\* wrong results: an invalid point has no coordinates worth comparing, but becoming valid is wrong, and the other way round
Flip(p) == [p EXCEPT !.ok = ~@]
Wrong(m, r) == IF r.t = "vec" /\ m \notin StructOps
               THEN (IF r.ok THEN BV(r) ELSE <<>>) \o <<Flip(r)>>
               ELSE IF r.t = "list" /\ r.v # <<>> /\ r.v[1].t = "num"         \* number of points, points
               THEN LET n == Len(r.v) IN
                    <<ListV(Append([r.v EXCEPT ![1] = NumV(@.v (+) One)], P2(7, 7)))>>
                    \o (IF n = 1 THEN <<>> ELSE <<ListV([i \in 1..n - 1 |-> IF i = 1 THEN NumV(r.v[1].v (-) One) ELSE r.v[i]])>>)
               ELSE IF m = "get_rectangle_clipped_polygon"                      \* repeated corners count once
               THEN <<PolyMk(Append(r.v, P2(7, 7)))>>
                    \o (IF Len(Removed(r.v, <<>>)) < 3 THEN <<>> ELSE <<PolyMk(SelectSeq(r.v, LAMBDA p : ~Same(p, r.v[1])))>>)
               ELSE IF m \in ClipHalfOps
               THEN <<ListV(Append(r.v, P2(17, 17))), ListV(Append(r.v, P2(-17, -17)))>>
                    \o (IF Len(Removed(r.v, <<>>)) < 3 THEN <<>> ELSE <<ListV(SelectSeq(r.v, LAMBDA p : ~Same(p, r.v[1])))>>)
               ELSE Bumps(r)

\* --- agreement of the two semantics on one call ----------------------------------------------
Bad(J) == J \ {"?"} # {}
\* results the specification leaves open
\* (the result of a write through an accessor, which empty rectangle, which improper line)
Free(c, m, A, r) == m \in PeekOps \cup LiveMut \/ (c = "vec" /\ m = "hash_eq")
                 \/ (r.t = "line" /\ ~Proper(r))
                 \/ (c = "rect" /\ m = "intersected" /\ ~RectOk(r))
                 \/ (c = "rect" /\ m = "united" /\ ~(RectOk(A[1]) /\ RectOk(A[2])))
\* a cut corner that falls on the side of a later cut may be dropped by it
MaybeOpen(m, J) == m = "get_rectangle_clipped_polygon" /\ "?" \in J
FreeState(c, m) == c = "circ" /\ m = "live_center"
Accepts(c, m, A, r, P) == LET J == Judge(c, m, A, r, P, TRUE)
                          IN Bad(J) => PrintT(<<"REJECTED", c, m, A, r, P, J>>) /\ FALSE
Rejects(c, m, A, r, P) ==
    "?" \notin Judge(c, m, A, r, P, TRUE) =>
    LET mu == Mutates(c, m)
        b  == Wrong(m, r)
    IN /\ (r.t # "none" /\ mu = {} /\ ~Free(c, m, A, r))
          => \A i \in 1..Len(b) : (LET J == Judge(c, m, A, b[i], P, TRUE) IN Bad(J) \/ MaybeOpen(m, J))
                                  \/ (PrintT(<<"LOOSE-RESULT", c, m, A, b[i]>>) /\ FALSE)
       /\ \A j \in 1..Len(P) :
             LET q == Bumps(P[j])
             IN (j \in mu /\ FreeState(c, m))
                \/ \A i \in 1..Len(q) : Bad(Judge(c, m, A, r, [P EXCEPT ![j] = q[i]], TRUE))
                                        \/ (PrintT(<<"LOOSE-STATE", c, m, A, j, q[i]>>) /\ FALSE)
=============================================================================
