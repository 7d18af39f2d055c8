----------------------------- MODULE TraceTies -----------------------------
(* Validation of recorded tie breaking.  A case is [t : text, s : the tied   *)
(* dialects in the order given, none : the tie stayed, r : the winner, exc,  *)
(* n : the text was n copies of t, or with characters stretched (ScaleUp),   *)
(* bs : if not empty, the text was made of these blocks, t of one of each].  *)
EXTENDS ScaleUp, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Verdict(c) ==
  IF c.exc THEN "an exception is raised"
  ELSE LET S == {c.s[i] : i \in DOMAIN c.s}
           w == Tb!Winner(c.t, S)
       IN IF c.n > 1 /\ ~WholeFor(c.t, S) THEN "ok"
          ELSE IF c.bs # <<>> /\ ~(TieBlocks(c.bs, S) /\ Joined(c.bs) = c.t) THEN "ok"
          ELSE IF ~c.none /\ c.r \notin S THEN "the winner is none of the tied dialects"
          ELSE IF c.none /\ w # None THEN "a tie that the rules break stays"
          ELSE IF ~c.none /\ w = None THEN "a tie that the rules leave is broken"
          ELSE IF ~c.none /\ c.r # w THEN "the winner is not the one of the rules"
          ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
