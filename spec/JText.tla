------------------------------- MODULE JText -------------------------------
(***************************************************************************)
(* Text: the numbers that can be read back from an object's text are the    *)
(* numbers of its state, in constructor order.  text: str and repr, at full *)
(* precision; to_str: rounded to three decimals, appended to a given text.  *)
(***************************************************************************)
EXTENDS Val

XYOf(p) == <<p.x, p.y>>
RECURSIVE Numbers(_), AllNumbers(_)
AllNumbers(s) == IF s = <<>> THEN <<>> ELSE Numbers(Head(s)) \o AllNumbers(Tail(s))
Numbers(o) ==
    CASE o.t = "ang" -> <<o.d>>
      [] o.t = "vec" -> XYOf(o)
      [] o.t = "line" -> <<o.a, o.b, o.c, Z>>                  \* a X + b Y + c = 0
      [] o.t = "ray" -> XYOf(o.o) \o <<o.d>>
      [] o.t = "seg" -> XYOf(o.o) \o XYOf(o.e)
      [] o.t = "tri" -> XYOf(o.a) \o XYOf(o.b) \o XYOf(o.c)
      [] o.t = "circ" -> XYOf(o.c) \o <<o.r>>
      [] o.t = "sect" -> XYOf(o.c) \o <<o.s, o.e, o.r0, o.r1>>
      [] o.t = "size" -> <<o.l, o.w>>
      [] o.t = "rect" -> <<o.x0, o.y0, o.l, o.w>>
      [] o.t = "mat" -> <<o.a, o.b, o.c, o.d, o.x, o.y>>
      [] o.t = "poly" -> AllNumbers(o.v)
      [] o.t = "hull" -> AllNumbers(o.v) \o AllNumbers(o.e)
TextOps == {"text", "text_repr", "to_str"}
Written(m, o) == IF m = "to_str" /\ o.t = "rect" THEN <<o.x0, o.y0, o.x1, o.y1>> ELSE Numbers(o)
Half3 == RFrac(1, 2000) (+) E12
JText(m, A, r) ==
    LET o == A[1] w == Written(m, o)
        Reads(u) == Len(r.v) = Len(u) /\ \A i \in 1..Len(u) :
                       IF m = "to_str" THEN Near(r.v[i].v, u[i], Half3) ELSE r.v[i].v = u[i]
    IN IF r.t # "list" \/ \E i \in 1..Len(r.v) : r.v[i].t # "num" THEN {"type"}
       ELSE C("text", Reads(w) \/ (o.t = "line" /\ o.c = Z /\ Reads(<<o.a, o.b, Z>>)))
=============================================================================
