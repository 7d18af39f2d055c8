------------------------------ MODULE TraceApi -----------------------------
(* Validation of recorded histories.  A case is [names, ref, ev]:            *)
(* ref[k][g][n] is what step n of k returned under limit g in a process of   *)
(* its own (steps are counted from 0: creation); an event is [op, a, r : what *)
(* was returned, l : the limit seen afterwards, args : were the arguments    *)
(* left alone, glob : and the rest of the global state].  For "set", "get"   *)
(* r is the value returned; for "bad", "begin" 1 if it went as it should.    *)
EXTENDS ApiHist, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

EventVerdict(c, e, q) ==
  IF e.l # q.st.limit THEN
       IF e.op = "set" THEN "the limit set is not in force" ELSE "a call changes the field size limit"
  ELSE IF ~e.args THEN "a call changes its arguments"
  ELSE IF ~e.glob THEN "a call changes global state"
  ELSE IF e.op \in {"set", "get"} THEN
       IF e.r = q.r.g THEN "ok" ELSE "the limit returned is not the previous one"
  ELSE IF e.op \in {"bad", "begin"} THEN IF e.r = 1 THEN "ok" ELSE "an unusable call is not rejected"
  ELSE LET steps == c.ref[q.r.k][q.r.g]
       IN IF q.r.n + 1 > Len(steps) THEN "ok"
          ELSE IF e.r = steps[q.r.n + 1] THEN "ok"
          ELSE "a result depends on earlier calls"

RECURSIVE Walk(_, _, _)
Walk(c, st, j) ==
  IF j > Len(c.ev) THEN "ok"
  ELSE LET e == c.ev[j]
           q == Do(st, e.op, e.a)
           v == EventVerdict(c, e, q)
       IN IF v # "ok" THEN v \o " (event " \o ToString(j) \o ")" ELSE Walk(c, q.st, j + 1)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Walk(Cases[i + 1], Start, 1) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
