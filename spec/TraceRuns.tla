------------------------------ MODULE TraceRuns ----------------------------
(***************************************************************************)
(* Detection as a function: whatever runs (with or without skipping, with   *)
(* any cache, on a new or a used detector, in any process, with the         *)
(* dialects supplied in any order) are recorded for one text and set of     *)
(* arguments, they all have the same outcome.                               *)
(*  case: [same : all with the same arguments, so that the same scores are  *)
(*         left out, runs : Seq([how, exc, hasres, none, r, m, hassc,                 *)
(*                     sc : Seq([p, P, T, Q : texts, n : rank of P,         *)
(*                               q : rank of Q or 0]), best])]              *)
(* Scores are compared as printed; T and Q are "" if they were left out.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == {s[i] : i \in DOMAIN s}

Outcome(r) == IF r.none THEN <<"none">> ELSE <<"dialect", r.r>>
ScoresAgree(same, a, b) ==
  /\ {s.p : s \in SetOf(a.sc)} = {s.p : s \in SetOf(b.sc)}
  /\ \A s \in SetOf(a.sc), u \in SetOf(b.sc) :
       s.p = u.p => /\ s.P = u.P
                    /\ same => s.T = u.T /\ s.Q = u.Q
                    /\ s.T # "" /\ u.T # "" => s.T = u.T /\ s.Q = u.Q

Verdict(c) ==
  LET R == DOMAIN c.runs
      res == {i \in R : c.runs[i].hasres}
      sc == {i \in R : c.runs[i].hassc}
  IN IF \E i \in R : c.runs[i].exc THEN "an exception is raised"
     ELSE IF \E i, j \in res : Outcome(c.runs[i]) # Outcome(c.runs[j]) THEN "the detected dialect differs"
     ELSE IF \E i, j \in res : c.runs[i].m # c.runs[j].m THEN "the method differs"
     ELSE IF \E i, j \in sc : ~ScoresAgree(c.same, c.runs[i], c.runs[j]) THEN "the scores differ"
     ELSE IF \E i, j \in sc : c.runs[i].best # c.runs[j].best THEN "the best dialects differ"
     ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
