---------------------------- MODULE TraceTables ----------------------------
(* Validation of recorded histories of writes to one file.  A case is a      *)
(* sequence of [op, rows, transpose, p, w, enc, out : "ok", "value", "fails" *)
(* or "exc", same : the file is byte for byte as before, exists, text : its   *)
(* text, decoded, back : what the library reads back, bend : how, pulls :     *)
(* how often the iterable was asked for an iterator].                         *)
EXTENDS Target, Json, TLC, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

One(r) ==
  LET o == Outcome(r) IN
  IF r.pulls > 1 THEN "the items are asked for more than once"
  ELSE IF o.out = "ok" /\ r.out # "ok" THEN "a table that can be written is refused"
  ELSE IF o.out = "value" /\ r.out # "value" THEN "rows of unequal length are not refused with ValueError"
  ELSE IF o.out = "fails" THEN
       (IF r.out = "ok" THEN "a table that cannot be written is accepted"
        ELSE IF r.op = "table" /\ ~r.same THEN "a failed write changes the file" ELSE "ok")
  ELSE IF ~o.touch THEN IF r.same THEN "ok" ELSE "the file is touched although there is nothing to write"
  ELSE IF ~r.exists \/ ~Holds(r.p, r.text, o.rows) THEN "the file does not hold the table"
  ELSE IF r.back # o.rows \/ r.bend # "stop" THEN "the table read back is not the one written"
  ELSE "ok"

Verdict(c) == LET bad == {j \in DOMAIN c : One(c[j]) # "ok"}
              IN IF bad = {} THEN "ok" ELSE LET j == CHOOSE j \in bad : \A k \in bad : j <= k
                                            IN One(c[j]) \o " (request " \o ToString(j) \o ")"
VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
