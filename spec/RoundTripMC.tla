---------------------------- MODULE RoundTripMC ----------------------------
(* Every table over a small alphabet, in every dialect, comes back: the      *)
(* records are written and read one after the other.                         *)
EXTENDS CsvWriter, TLC, FiniteSets

CONSTANTS MaxCell, MaxCells, MaxRows

Dl == 44  Qt == 39  Es == 92  Ch == 97  Sp == 32
Alphabet == {Dl, Qt, Es, Ch, Sp, LF, CR}
CellSet == UNION {[1..n -> Alphabet] : n \in 0..MaxCell}

VARIABLES w,      \* the writer
          row,    \* the record being put together
          rows,   \* the records written
          text    \* the text written
vars == <<w, row, rows, text>>

Init == /\ w \in [d : {Dl, Sp}, q : {0, Qt}, e : {0, Es}, nl : {<<LF>>, <<CR, LF>>, <<CR>>}, all : {FALSE}]
                  \cup [d : {Dl}, q : {Qt}, e : {0, Es}, nl : {<<LF>>}, all : {TRUE}]
        /\ row = <<>> /\ rows = <<>> /\ text = <<>>

AddCell == /\ Len(row) < MaxCells /\ Len(rows) < MaxRows
           /\ \E c \in CellSet : row' = Append(row, c)
           /\ UNCHANGED <<w, rows, text>>
Write == /\ Len(rows) < MaxRows
         /\ IF Representable(w, row)
            THEN rows' = Append(rows, row) /\ text' = text \o RowText(w, row)
            ELSE UNCHANGED <<rows, text>>
         /\ row' = <<>> /\ UNCHANGED w
Next == AddCell \/ (Write /\ Len(rows) < MaxRows)
Spec == Init /\ [][Next]_vars

P(strict) == [d |-> w.d, q |-> w.q, e |-> w.e, strict |-> strict, limit |-> NoLimit]
RoundTrip == LET r == ParseText(P(FALSE), text) IN Plain(r.rows) = rows /\ r.end = "stop"
StrictToo == LET r == ParseText(P(TRUE), text) IN Plain(r.rows) = rows /\ r.end = "stop"
(* Only what cannot be represented is refused: with a quote character       *)
(* everything can.                                                          *)
QuoteRepresentsAll == w.q # 0 => Representable(w, row)
EscapeRepresentsCells == w.q = 0 /\ w.e # 0 /\ ~OneEmpty(row) => Representable(w, row)
=============================================================================
