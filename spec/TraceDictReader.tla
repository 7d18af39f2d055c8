-------------------------- MODULE TraceDictReader --------------------------
(* Validation of recorded histories of a DictReader.  A case is              *)
(*  [c : [p, l, rk, rv], given : <<>> or <<names>>, warned : BOOLEAN,        *)
(*   ev : Seq([a : "next" / "ask" / "set", k : outcome, d : pairs,           *)
(*             n : names, ln : line_num after it, -1 if not recorded])].     *)
EXTENDS DictRW, Json, TLC, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

EvVerdict(e, o) ==
  IF e.k = "exc" THEN "an exception other than clevercsv.Error"
  ELSE IF e.k # o.k THEN
     IF e.k = "dict" THEN "a dictionary too many"
     ELSE IF o.k = "dict" THEN "a record is lost" ELSE "wrong outcome"
  ELSE IF e.k = "dict" /\ e.d # o.d THEN "a dictionary has other keys or values"
  ELSE IF e.k = "names" /\ e.n # o.n THEN "other field names"
  ELSE "ok"
(* After a record or the names, line_num is the number of records consumed.  *)
LineNum(e, x) == e.ln < 0 \/ x.o.k \notin {"dict", "names"} \/ e.ln = x.s.recs

Dup(s) == IF s.names = <<>> THEN FALSE ELSE Duplicates(s.names[1])

\* due: duplicate names have been shown to the user, a warning is due;
\* may: they have been in use at all
RECURSIVE Walk(_, _, _, _, _)
Walk(c, s, j, due, may) ==
  IF j > Len(c.ev) THEN
     IF due /\ ~c.warned THEN "no warning about duplicate names"
     ELSE IF ~may /\ c.warned THEN "a warning without duplicate names" ELSE "ok"
  ELSE LET e == c.ev[j] IN
       IF e.a = "set" THEN Walk(c, SetNames(s, e.n), j + 1, due, may)
       ELSE LET x == IF e.a = "ask" THEN Ask(c.c, s) ELSE NextDict(c.c, s)
                v == EvVerdict(e, x.o)
            IN IF v # "ok" THEN v
               ELSE IF ~LineNum(e, x) THEN "line_num is not the number of records consumed"
               ELSE Walk(c, x.s, j + 1,
                         due \/ (x.o.k \in {"names", "dict"} /\ Dup(x.s)),
                         may \/ Dup(x.s))

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Cases[i + 1]
               v == Walk(c, RdStart(c.given), 1, FALSE, FALSE)
           IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
