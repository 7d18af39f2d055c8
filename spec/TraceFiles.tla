----------------------------- MODULE TraceFiles ----------------------------
(* Validation of recorded file reads.  A case is [op : "table", "dicts",      *)
(* "detect", "frame" or "enc", x : text, given, p : dialect used (given or detected on   *)
(* the prefix by hand), nodet, out : "ok", "none", "error", "decode" or      *)
(* "exc", rows or dicts, part : rows before an error are known, r : dialect returned or handed on, undec : the file  *)
(* cannot be decoded, pass : everything else was handed on as it should be].  *)
EXTENDS FileRead, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Same(c, q) ==
  IF c.out # q.out THEN
     (IF q.out = "none" THEN "NoDetectionResult is not raised"
      ELSE IF c.out = "none" THEN "NoDetectionResult is raised although there is a dialect"
      ELSE IF c.out = "error" \/ c.out = "exc" THEN "the file is refused" ELSE "an error in the file is not reported")
  ELSE IF ~(q.out = "error" /\ ~c.part) /\ c.rows # q.rows THEN
     (IF q.out = "none" THEN "a partial result without dialect"
      ELSE "not the table of the whole file in that dialect")
  ELSE "ok"

Verdict(c) ==
  IF c.undec THEN IF c.out = "decode" THEN "ok" ELSE "an undecodable file is not reported"
  ELSE CASE c.op = "table" -> Same(c, TableOf(c.x, c.nodet, c.p))
         [] c.op = "dicts" -> Same(c, DictsOf(c.x, c.nodet, c.p))
         [] c.op = "detect" -> IF c.out # "ok" THEN "an exception is raised"
                               ELSE IF c.r # (IF c.nodet THEN [d |-> -1, q |-> -1, e |-> -1]
                                              ELSE [d |-> c.p.d, q |-> c.p.q, e |-> c.p.e])
                               THEN "not the dialect detected on the text" ELSE "ok"
         [] c.op = "frame" -> IF c.out # (IF c.nodet THEN "none" ELSE "ok") THEN "wrong outcome of reading a data frame"
                              ELSE IF ~c.nodet /\ (~c.pass \/ c.r # [d |-> c.p.d, q |-> c.p.q, e |-> c.p.e])
                              THEN "the data frame is read in another way" ELSE "ok"
         [] c.op = "enc" -> IF c.pass THEN "ok" ELSE "not the encoding of the file"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
