---------------------------- MODULE TracePattern ---------------------------
(* Validation of recorded abstractions and pattern scores.  A case is        *)
(*  [p : [d, q, e], t : text, a : abstraction, eps, s : score (millionths),  *)
(*   exc, n : the text was repeated n times, a and s are one n-th of what     *)
(*   was returned, ls : if not empty, the text was that of RowLengths, and a   *)
(*   has the numbers of cells in the rows of the abstraction].                *)
EXTENDS Scale, Json, TLC, IOUtils
Rl == INSTANCE RowLengths
Cases == ndJsonDeserialize(IOEnv.TRACE)

Verdict(c) ==
  IF c.exc THEN "an exception is raised"
  ELSE IF c.ls # <<>> THEN
       LET d == Rl!LScore(c.ls, c.eps) - c.s IN
       IF c.a # c.ls THEN "the abstraction is not the defined one"
       ELSE IF d > Len(c.ls) + 2 \/ -d > Len(c.ls) + 2 THEN "the pattern score is not the defined one"
       ELSE "ok"
  ELSE IF c.n > 1 /\ ~Rounded(c.p, c.t) THEN "ok"
  ELSE LET b == Base(c.p, c.t)
           a == Strip(Fill(Merge(b)))
           d == Score(a, c.eps) - c.s
       IN IF c.a # a THEN "the abstraction is not the defined one"
          ELSE IF d > ScoreTolerance(a) \/ -d > ScoreTolerance(a) THEN "the pattern score is not the defined one"
          ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
