------------------------------ MODULE TraceCli ------------------------------
(* Validation of recorded runs of the commands detect, code, view and         *)
(* explore.  A case is [op, fmt, transpose, x : text, undec, nodet, p : the   *)
(* dialect by hand, code, out : standard output, err : something is printed   *)
(* on standard error, loaded : the dialect printed as the output is read      *)
(* back, ran : the program ran, the session opened or the table was shown,    *)
(* rows : what it gave, pass : everything else is as it should be].           *)
EXTENDS Cli, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Dialect(p) == [d |-> p.d, q |-> p.q, e |-> p.e]
Verdict(c) ==
  IF c.undec THEN
     (IF c.code # "exc" THEN "an undecodable file is not reported" ELSE IF c.out # <<>> THEN "output in spite of an error" ELSE "ok")
  ELSE IF c.nodet THEN
     (IF c.code # "1" THEN "the command does not exit with 1"
      ELSE IF ~c.err THEN "no error is printed" ELSE IF c.out # <<>> \/ c.ran THEN "output in spite of an error" ELSE "ok")
  ELSE LET b == ParseText(c.p, c.x)
       IN IF c.op \in {"view", "code", "explore"} /\ c.fmt = "rows" /\ b.end # "stop"
          THEN (IF c.ran THEN "an error in the file is not reported" ELSE "ok")
          ELSE IF c.code # "0" THEN "the command does not exit with 0"
          ELSE CASE c.op = "detect" ->
                      IF c.fmt = "plain" THEN (IF ~StartsWith(PlainText(c.p), c.out) \/ ~c.pass THEN "not the dialect in plain form" ELSE "ok")
                      ELSE IF c.loaded # Dialect(c.p) THEN "not the dialect that the library finds"
                      ELSE IF ~c.pass THEN "not the format of the output" ELSE "ok"
                 [] c.op \in {"code", "explore", "view"} ->
                      IF c.fmt = "frame" THEN (IF c.pass THEN "ok" ELSE "not the data frame that the library reads")
                      ELSE IF ~c.ran THEN (IF c.op = "view" THEN "nothing is shown" ELSE "the program does not run")
                      ELSE IF c.rows # Shown(c.transpose, Plain(b.rows)) THEN "not the table of the file"
                      ELSE IF ~c.pass THEN "not the format of the output" ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
