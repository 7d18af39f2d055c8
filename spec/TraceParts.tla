---------------------------- MODULE TraceParts -----------------------------
(* Validation of recorded calls of the functions that find delimiters,      *)
(* quote characters and escape characters, with exclusions and inclusions   *)
(* of the caller's own.  A case is [op, t : a text, cats : pairs of code    *)
(* point and category, given : candidate delimiters or <<-1>>, own :        *)
(* whether exclusions (or quote characters) were given, chars : these,      *)
(* owncats : whether categories were given, bcats : these, r : what was     *)
(* returned (for "escape" the characters of the text that are), exc].       *)
EXTENDS Candidates, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Cat(ps) == [u \in {ps[i][1] : i \in DOMAIN ps} |-> (CHOOSE i \in DOMAIN ps : ps[i][1] = u)]
Verdict(c) ==
  IF c.exc THEN "an exception is raised"
  ELSE LET ix == Cat(c.cats)
           cat == [u \in DOMAIN ix |-> c.cats[ix[u]][2]]
           S == Chars(c.chars)
           want == CASE c.op = "delimiters" ->
                          DelimitersBut(c.t, cat, Chars(c.given), IF c.own THEN S ELSE BlockedDelimiters,
                                        IF c.owncats THEN Chars(c.bcats) ELSE BlockedCategories)
                     [] c.op = "quotes" -> QuotesOf(c.t, IF c.own THEN S ELSE QuoteChars)
                     [] c.op = "escapes" -> {u \in Chars(c.t) : EscapeBut(u, cat, IF c.own THEN S ELSE BlockedEscapes)}
       IN IF Chars(c.r) # want \/ Cardinality(want) # Len(c.r) THEN "not the potential " \o c.op ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
