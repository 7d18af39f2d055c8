-------------------------- MODULE TraceCandidates --------------------------
(* Validation of recorded candidate dialects.  A case is [x, cats : pairs of *)
(* code point and category, given : candidate delimiters or <<-1>>, masked : *)
(* whether masked delimiters were to be removed, r : the dialects returned,  *)
(* hasnu, nu : the text with URLs blanked out, exc, f : if not empty, the    *)
(* text had many copies of this filler where x has two, from position at on, *)
(* and nu is that of x if copies of f were found there].                     *)
EXTENDS CandidatesPad, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Cat(ps) == [u \in {ps[i][1] : i \in DOMAIN ps} |-> (CHOOSE i \in DOMAIN ps : ps[i][1] = u)]
Verdict(c) ==
  IF c.exc THEN "an exception is raised"
  ELSE IF c.f # <<>> /\ ~(IsFiller(c.f) /\ SubSeq(c.x.c, c.at, c.at + 2 * Len(c.f) - 1) = c.f \o c.f) THEN "ok"
  ELSE LET ix == Cat(c.cats)
           cat == [u \in DOMAIN ix |-> c.cats[ix[u]][2]]
           all == Candidates(c.x, cat, Chars(c.given))
           want == IF c.masked THEN {p \in all : ~Masked(c.x.c, p)} ELSE all
           have == {c.r[i] : i \in DOMAIN c.r}
       IN IF c.hasnu /\ c.nu # Blanked(c.x) THEN "URLs are not blanked out as defined"
          ELSE IF want \ have # {} THEN "a candidate dialect is missing"
          ELSE IF have \ want # {} THEN "there is a dialect that is no candidate"
          ELSE IF Cardinality(have) # Len(c.r) THEN "a candidate dialect occurs twice"
          ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
