----------------------------- MODULE TraceTypes ----------------------------
(* Validation of recorded cell types.  A case is [x : classified text,       *)
(* u, q : the type found for the cell unquoted and quoted, ku, kq : whether  *)
(* it was said to be known, exc].                                            *)
EXTENDS CellTypes, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Verdict(c) ==
  IF c.exc THEN "an exception is raised"
  ELSE LET u == Type(c.x, FALSE)
       IN IF c.u # u THEN "the type is not the defined one"
          ELSE IF c.q # (IF u \in {"unknown", "unicode_alphanum", "bytearray", "json"} THEN Type(c.x, TRUE) ELSE u)
               THEN "the type of the quoted cell is not the defined one"
          ELSE IF c.ku # (c.u # "unknown") \/ c.kq # (c.q # "unknown") THEN "known is not having a type"
          ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
