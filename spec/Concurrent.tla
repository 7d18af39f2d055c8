----------------------------- MODULE Concurrent ----------------------------
(***************************************************************************)
(* Calls in several threads.  A call begins (is invoked) and ends (returns *)
(* its result); calls of different threads overlap.  One thread at most    *)
(* sets the field size limit.  A call that reads data obeys a limit that   *)
(* was in force at some moment between its beginning and its end, and      *)
(* nothing else of what other threads do has an influence on its result.   *)
(*                                                                         *)
(* cur  : the limits that may be in force now (two while one is being set) *)
(* val  : the limit last set                                               *)
(* pend : thread -> [op, a, w : the limits in force since it began], or    *)
(*        op = "" if it is idle                                            *)
(* objs : thread -> its objects [k, g : limits they may have been begun    *)
(*        under, {} if not begun, n : steps taken]                         *)
(* Results are those of ApiHist: [k, g, n].                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Limits, Default, Threads

Idle == [op |-> "", a |-> 0, w |-> {}]
Start == [cur |-> {Default}, val |-> Default, pend |-> [t \in Threads |-> Idle], objs |-> [t \in Threads |-> <<>>]]

Widen(pend, v) == [t \in Threads |-> IF pend[t].op = "" THEN pend[t] ELSE [pend[t] EXCEPT !.w = @ \cup {v}]]

Invoke(st, t, op, a) ==
  LET cur == IF op = "set" THEN st.cur \cup {a} ELSE st.cur
      p   == IF op = "set" THEN Widen(st.pend, a) ELSE st.pend
  IN [st EXCEPT !.cur = cur, !.pend = [p EXCEPT ![t] = [op |-> op, a |-> a, w |-> cur]]]

(* Which results the pending call of t may return, as a set of [k, g, n].    *)
Object(st, t) == st.objs[t][st.pend[t].a]
Governing(st, t) == IF Object(st, t).g = {} THEN st.pend[t].w ELSE Object(st, t).g
Allowed(st, t) ==
  LET p == st.pend[t] IN
  CASE p.op = "set"  -> {[k |-> 0, g |-> st.val, n |-> 0]}
    [] p.op \in {"get", "bad"} -> {[k |-> 0, g |-> v, n |-> 0] : v \in p.w}
    [] p.op = "call" -> {[k |-> p.a, g |-> v, n |-> 1] : v \in p.w}
    [] p.op = "new"  -> {[k |-> p.a, g |-> v, n |-> 0] : v \in p.w}
    [] p.op = "ask"  -> {[k |-> Object(st, t).k, g |-> v, n |-> Object(st, t).n + 1] : v \in Governing(st, t)}

(* The call of t returns; R: those of the allowed results that it was.       *)
Return(st, t, R) ==
  LET p == st.pend[t]
      s == [st EXCEPT !.pend[t] = Idle]
  IN CASE p.op = "set" -> [s EXCEPT !.cur = {p.a}, !.val = p.a]
       [] p.op = "new" -> [s EXCEPT !.objs[t] = Append(@, [k |-> p.a, g |-> {}, n |-> 0])]
       [] p.op = "ask" -> [s EXCEPT !.objs[t][p.a].g = {q.g : q \in R}, !.objs[t][p.a].n = @ + 1]
       [] OTHER -> s
=============================================================================
