---------------------------- MODULE TraceParser ----------------------------
(* Validation of recorded reads against CsvParser.  A case is               *)
(*   [op, p : parser configuration, l : Seq(line),                          *)
(*    r : the rows the code returned (cells as sequences of code points),   *)
(*    q : the quoted flags it returned (or <<>> when not asked for),        *)
(*    e : how the iteration ended: "stop", "err" (clevercsv.Error), "exc"]  *)
EXTENDS CsvParser, Json, TLC, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i
                      ELSE FirstDiff(a, b, i + 1)

RowsVerdict(want, got) ==
  IF want = got THEN "ok"
  ELSE LET i == FirstDiff(want, got, 1) IN
       IF i > Len(want) THEN "a record was added"
       ELSE IF i > Len(got) THEN "a record is missing"
       ELSE IF Len(want[i]) # Len(got[i]) THEN "a record has the wrong number of cells"
       ELSE "a cell has the wrong content"

Parse(c) ==
  LET r == Run(c.p, c.l)
      v == RowsVerdict(Plain(r.rows), c.r)
      e == IF r.end = "stop" THEN "stop" ELSE "err"
  IN IF c.e = "exc" THEN "an exception other than clevercsv.Error"
     ELSE IF v # "ok" THEN v
     ELSE IF e # c.e THEN
          IF e = "err" THEN "an error is not reported" ELSE "a spurious error"
     ELSE IF c.hasq /\ Quoted(r.rows) # c.q THEN "wrong quoted flag"
     ELSE "ok"

(* Strict mode accepts => same records as non-strict mode.                  *)
StrictPair(c) ==
  LET v1 == Parse([c EXCEPT !.p.strict = TRUE])
  IN IF v1 # "ok" THEN "strict: " \o v1
     ELSE IF c.e2 = "exc" THEN "an exception other than clevercsv.Error"
     ELSE IF c.e = "stop" /\ c.r2 # c.r THEN "strict mode changes accepted input"
     ELSE "ok"

Verdict(c) == IF c.op = "parse" THEN Parse(c)
              ELSE IF c.op = "strictpair" THEN StrictPair(c)
              ELSE "unknown operation"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
