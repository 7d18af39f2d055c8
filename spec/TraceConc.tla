----------------------------- MODULE TraceConc -----------------------------
(* Validation of recorded interleavings.  A case is [ref, ev]; ref as in      *)
(* TraceApi; an event is [ph : "inv", "res" or "look", t, op, a, r : result,  *)
(* l : the limit seen at that moment].                                        *)
EXTENDS Concurrent, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Value(c, q) == IF q.k = 0 THEN q.g
               ELSE LET s == c.ref[q.k][q.g] IN IF q.n + 1 > Len(s) THEN -1 ELSE s[q.n + 1]
Agrees(c, st, t, e, q) == IF st.pend[t].op = "bad" THEN e.r = 1 ELSE Value(c, q) \in {-1, e.r}

RECURSIVE Walk(_, _, _)
Walk(c, st, j) ==
  IF j > Len(c.ev) THEN "ok"
  ELSE LET e == c.ev[j]
           at == " (event " \o ToString(j) \o ")"
       IN IF e.l # 0 /\ e.l \notin st.cur THEN "the limit of the user is overwritten" \o at
          ELSE IF e.ph = "look" THEN Walk(c, st, j + 1)
          ELSE IF e.ph = "inv" THEN Walk(c, Invoke(st, e.t, e.op, e.a), j + 1)
          ELSE LET R == {q \in Allowed(st, e.t) : Agrees(c, st, e.t, e, q)}
               IN IF R = {} THEN
                    (IF st.pend[e.t].op \in {"set", "get"} THEN "a limit that was never in force is seen"
                     ELSE "a result differs from that of sequential use") \o at
                  ELSE Walk(c, Return(st, e.t, R), j + 1)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Walk(Cases[i + 1], Start, 1) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
