---------------------------- MODULE TraceWriter ----------------------------
(* Validation of recorded writes (and of reading them back).  A case is      *)
(*  [p : configuration of the reader, w : configuration of the writer,       *)
(*   ops : Seq([rows, err]) : one call per entry (err: clevercsv.Error),     *)
(*   t : the text written, b : the rows the code reads back,                 *)
(*   e : how reading ended, exc : another exception was raised,              *)
(*   ends : is the line terminator the one of the dialect?]                  *)
EXTENDS CsvWriter, Json, TLC, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

FirstBad(w, rows) ==
  LET bad == {i \in DOMAIN rows : ~Representable(w, rows[i])} IN
  IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j

(* A call that fails has written the records before the first one that     *)
(* cannot be represented, and nothing of the others.                        *)
OpRows(w, op) == IF op.err THEN SubSeq(op.rows, 1, FirstBad(w, op.rows) - 1) ELSE op.rows

RECURSIVE Written(_, _, _)
Written(w, ops, i) == IF i > Len(ops) THEN <<>> ELSE OpRows(w, ops[i]) \o Written(w, ops, i + 1)

(* Where no cell has a line end, those of the text are line terminators, one *)
(* after each record.                                                       *)
Times(s, n) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
LineEndsOk(c, tbl) ==
  \/ \E i \in DOMAIN tbl : \E j \in DOMAIN tbl[i] : \E k \in DOMAIN tbl[i][j] : IsNL(tbl[i][j][k])
  \/ /\ SelectSeq(c.t, IsNL) = Times(c.w.nl, Len(tbl))
     /\ tbl # <<>> => SubSeq(c.t, Len(c.t) - Len(c.w.nl) + 1, Len(c.t)) = c.w.nl

Verdict(c) ==
  IF c.exc THEN "an exception other than clevercsv.Error"
  ELSE IF \E i \in DOMAIN c.ops : c.ops[i].err /\ FirstBad(c.w, c.ops[i].rows) = 0
       THEN "a record that can be represented is refused"
  ELSE LET tbl == Written(c.w, c.ops, 1)
           r   == ParseText(c.p, c.t)
       IN IF c.b # tbl \/ c.e # "stop" THEN "the table read back is not the table written"
          ELSE IF c.ends /\ ~LineEndsOk(c, tbl) THEN "not the line terminator of the dialect"
          ELSE IF Plain(r.rows) # tbl \/ r.end # "stop" THEN "the text written is not the table"
          ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
