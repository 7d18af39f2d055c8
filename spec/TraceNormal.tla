---------------------------- MODULE TraceNormal ----------------------------
(* Validation of recorded normal form detections.  A case is [t : text,      *)
(* ds : delimiters in order, esc : potential escape characters of the text,  *)
(* none : nothing found, r : the dialect found, rows : what the reader made  *)
(* of the text (trailing line ends removed) with that dialect, end, exc, *)
(* n : the text was n copies of t, or with characters stretched (ScaleUp),   *)
(* bs : if not empty, the text was made of these blocks, t is one of each,   *)
(* and rows has those of one of each].                                       *)
EXTENDS ScaleUp, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Verdict(c) ==
  IF c.exc THEN "an exception is raised"
  ELSE IF c.n > 1 /\ ~FullRows(c.t) THEN "ok"
  ELSE IF c.bs # <<>> /\ ~(RowBlocks(c.bs) /\ Joined(c.bs) = c.t) THEN "ok"
  ELSE LET f == Nf!Normal(c.t, c.ds, {c.esc[i] : i \in DOMAIN c.esc})
       IN IF f.k = 0 /\ ~c.none THEN "a form is reported for a text that is in none"
          ELSE IF f.k # 0 /\ c.none THEN "a text in a normal form is not recognised"
          ELSE IF f.k # 0 /\ c.r # f.p THEN "not the first form that matches"
          ELSE IF f.k \in {1, 2, 3} /\ (c.end # "stop" \/ c.rows # Nf!Table(c.t, f.p))
               THEN "the text does not read as the table of the form"
          ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
