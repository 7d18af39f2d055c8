------------------------------ MODULE TraceStd ------------------------------
(* Validation of recorded runs of the standardize command.  A case is a       *)
(* command (see Standardize), its steps with prev : an earlier step on the    *)
(* same file, or 0, chain : read in the encoding that wrote, last : no later step is on the same file; and code,       *)
(* stdout, err : something is printed on standard error, files : of every     *)
(* step, [same : the bytes are unchanged, text : afterwards], outs : of       *)
(* every output given, [touched, text], other : files appeared or vanished.   *)
EXTENDS Standardize, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

FileBad(c, rs, i) ==
  LET s == c.steps[i]
      f == c.files[i]
      proc == ~BadOptions(c) /\ Processed(rs, i)
      q == s.prev
  IN IF ~s.last THEN FALSE
     ELSE IF c.mode # "inplace" THEN ~f.same
     ELSE IF proc THEN f.text # rs[i].text \/ (q = 0 /\ f.same # ~Changed(c, s, rs[i]))
     ELSE IF q # 0 THEN Processed(rs, q) /\ ~BadOptions(c) /\ f.text # rs[q].text
     ELSE ~f.same

OutBad(c, rs, i) ==
  IF ~BadOptions(c) /\ i \in DOMAIN rs /\ Processed(rs, i)
  THEN c.outs[i].text # rs[i].text
  ELSE c.outs[i].touched

Verdict(c) ==
  LET rs == Results(c)
      want == ExitCode(c, rs)
  IN IF ~BadOptions(c) /\ \E i \in DOMAIN rs : c.steps[i].prev # 0 /\ c.steps[i].chain /\ Processed(rs, c.steps[i].prev)
        /\ c.steps[i].x # rs[c.steps[i].prev].text THEN "a file standardized before is not read as standardized"
     ELSE IF c.code # want THEN
       (IF want = "1" THEN "the command does not exit with 1"
        ELSE IF want = "2" THEN "exit code is not 2 although a file changed"
        ELSE IF want = "0" THEN "exit code is not 0" ELSE "an error is not reported")
     ELSE IF c.stdout # Stdout(c, rs) THEN "standard output is not the standardized text"
     ELSE IF want = "1" /\ ~c.err THEN "no error is printed"
     ELSE IF c.mode # "out" /\ \E i \in DOMAIN rs : FileBad(c, rs, i) THEN "a file does not hold what it should"
     ELSE IF c.mode = "out" /\ \E i \in DOMAIN rs : c.steps[i].last /\ ~c.files[i].same /\ ~c.files[i].isout THEN "an input file is changed"
     ELSE IF \E i \in DOMAIN c.outs : OutBad(c, rs, i) THEN "an output file does not hold what it should"
     ELSE IF c.other THEN "files appeared or vanished"
     ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
