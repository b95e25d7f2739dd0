------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: recorded runs of the implementation against PyrusGeom.     *)
(*                                                                         *)
(* The log is a sequence of sessions; a session is a sequence of calls made *)
(* on one heap of live objects.  Every session is a behaviour of the        *)
(* specification iff each call's verdict is empty.  One TLC state per       *)
(* consumed event, so the number of distinct states proves that every event *)
(* was judged.                                                             *)
(*                                                                         *)
(* event: c class, m method, a arguments (value or [t |-> "ref", id |-> n]),*)
(*        r result, p changed literal arguments <<index, value>>,           *)
(*        ch changed heap objects <<id, value>>, k # 0: r enters the heap,  *)
(*        s argument the result is identical to, h heap object it is        *)
(*        identical to (if not an argument), g exact inputs                 *)
(***************************************************************************)
EXTENDS PyrusGeom, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES sid, i, heap
vars == <<sid, i, heap>>

Resolve(a) == IF a.t = "ref" THEN heap[a.id] ELSE a
RECURSIVE Lookup(_, _, _)
Lookup(pairs, key, default) ==
    IF pairs = <<>> THEN default
    ELSE IF Head(pairs)[1] = key THEN Head(pairs)[2] ELSE Lookup(Tail(pairs), key, default)
RECURSIVE Update(_, _)
Update(h, pairs) == IF pairs = <<>> THEN h
                    ELSE Update([h EXCEPT ![Head(pairs)[1]] = Head(pairs)[2]], Tail(pairs))

\* arguments after the call
After(e, A, j) == IF e.a[j].t = "ref" THEN Lookup(e.ch, e.a[j].id, A[j]) ELSE Lookup(e.p, j, A[j])

Verdict(e) ==
    LET n  == Len(e.a)
        A  == TLCEval([j \in 1..n |-> Resolve(e.a[j])])
        mu == Mutates(e.c, e.m)
        ids == {e.a[j].id : j \in {j \in mu : j <= n /\ e.a[j].t = "ref"}}
        \* an object passed both as a mutable and as another argument
        P0 == TLCEval([j \in 1..n |-> After(e, A, j)])
        shared == {j \in 1..n : j \notin mu /\ e.a[j].t = "ref" /\ e.a[j].id \in ids}
        P  == IF shared = {} THEN P0 ELSE [j \in 1..n |-> IF j \in shared THEN A[j] ELSE P0[j]]
        changed == {e.ch[j][1] : j \in 1..Len(e.ch)}
    IN Judge(e.c, e.m, A, e.r, P, e.g) \cup Frame(e.c, e.m, e.s, e.h, changed, ids)

Init == /\ sid \in 1..Len(Log)
        /\ i = 0
        /\ heap = <<>>

Step == /\ i < Len(Log[sid])
        /\ LET e == Log[sid][i + 1]
               v == Verdict(e)
               h == Update(heap, e.ch)
           IN /\ IF v = {} THEN TRUE ELSE PrintT(<<"V", sid, i + 1, v>>)
              /\ heap' = IF e.k = 0 THEN h ELSE Append(h, e.r)
        /\ i' = i + 1
        /\ sid' = sid

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
