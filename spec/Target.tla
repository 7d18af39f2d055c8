------------------------------ MODULE Target -------------------------------
(***************************************************************************)
(* Writing a table, or a list of dictionaries, to a file.                  *)
(*                                                                         *)
(* The file is None or its text (of the encoding that was used last).  A   *)
(* request is [op : "table" or "dicts", rows, transpose, p : dialect as    *)
(* the reader has it, w : as the writer has it (see CsvWriter), enc : how  *)
(* large a code point of the encoding may be].  The rows of "dicts" are    *)
(* the header and one row per item, which is <<NotKnown>> if the item has  *)
(* an unknown key.                                                         *)
(***************************************************************************)
EXTENDS CsvWriter

NoFile == <<-1>>
NotKnown == <<-2>>

Ragged(rows) == \E i \in DOMAIN rows : Len(rows[i]) # Len(rows[1])
Transposed(rows) == IF rows = <<>> THEN <<>>
                    ELSE [j \in 1..Len(rows[1]) |-> [i \in DOMAIN rows |-> rows[i][j]]]
Encodable(enc, row) == \A j \in DOMAIN row : \A k \in DOMAIN row[j] : row[j][k] <= enc

(* What comes of a request: [out, rows : what is to be stored, touch]        *)
Outcome(r) ==
  IF r.rows = <<>> THEN [out |-> "ok", rows |-> <<>>, touch |-> FALSE]
  ELSE IF r.op = "table" /\ Ragged(r.rows) THEN [out |-> "value", rows |-> <<>>, touch |-> FALSE]
  ELSE LET rows == IF r.op = "table" /\ r.transpose THEN Transposed(r.rows) ELSE r.rows
           bad  == \E i \in DOMAIN rows : ~Representable(r.w, rows[i])
           enc  == \E i \in DOMAIN rows : ~Encodable(r.enc, rows[i])
           extra == r.op = "dicts" /\ \E i \in DOMAIN rows : rows[i] = <<NotKnown>>
       IN IF rows = <<>> THEN [out |-> "ok", rows |-> <<>>, touch |-> FALSE]
          ELSE IF bad \/ enc \/ extra THEN [out |-> "fails", rows |-> rows, touch |-> FALSE]
          ELSE [out |-> "ok", rows |-> rows, touch |-> TRUE]

(* The text stored for rows; any text that parses to them would do.           *)
Stored(r, file) == LET o == Outcome(r) IN IF o.touch THEN TableText(r.w, o.rows) ELSE file
Holds(p, text, rows) == LET b == ParseText(p, text) IN b.end = "stop" /\ Plain(b.rows) = rows
=============================================================================
