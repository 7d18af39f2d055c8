----------------------------- MODULE TargetMC ------------------------------
(* Histories of requests on one file.                                        *)
EXTENDS Target, FiniteSets
CONSTANTS MaxRows, MaxCols, MaxOps
Cells == {<<>>, <<97>>, <<44>>, <<233>>, <<34, 10>>}
Rows == UNION {[1..n -> Cells] : n \in 0..MaxCols}
Tables == UNION {[1..n -> Rows] : n \in 0..MaxRows}
Dialects == {<<44, 34, 0>>, <<44, 0, 0>>}
Request(t, tr, x, enc) == [op |-> "table", rows |-> t, transpose |-> tr,
                           p |-> Conf(x[1], x[2], x[3]), w |-> WriterOf(x[1], x[2], x[3]), enc |-> enc]
VARIABLES file, last, ops
vars == <<file, last, ops>>
Nothing == [p |-> Conf(44, 34, 0), rows |-> <<>>]
Init == file \in {NoFile, <<120, 10>>} /\ last = Nothing /\ ops = 0
Write == /\ ops < MaxOps
         /\ \E t \in Tables, tr \in BOOLEAN, x \in Dialects, enc \in {127, 1114111} :
              LET r == Request(t, tr, x, enc)
                  o == Outcome(r)
              IN /\ file' = Stored(r, file)
                 /\ last' = IF o.touch THEN [p |-> r.p, rows |-> o.rows] ELSE last
         /\ ops' = ops + 1
Spec == Init /\ [][Write]_vars
(* The file holds what the last request that did not fail stored, or is as    *)
(* it was in the beginning.                                                  *)
Whole == (last = Nothing /\ file \in {NoFile, <<120, 10>>}) \/ Holds(last.p, file, last.rows)
(* Transposing twice gives the table back.                                   *)
Twice == Len(last.rows) > 0 /\ Len(last.rows[1]) > 0 => Transposed(Transposed(last.rows)) = last.rows
=============================================================================
