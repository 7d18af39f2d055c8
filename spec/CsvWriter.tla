----------------------------- MODULE CsvWriter -----------------------------
(***************************************************************************)
(* What a writer with a dialect of CleverCSV writes: cells are quoted when *)
(* they have to be, quotes are doubled, and where that is impossible the   *)
(* escape character is used; without one, the cell cannot be represented.  *)
(*                                                                         *)
(* A writer configuration w is [d, q, e, nl, all]: delimiter, quote,       *)
(* escape (0: none), line terminator (sequence), all: quote every cell.    *)
(***************************************************************************)
EXTENDS CsvParser

Special(w, c) == c = w.d \/ (w.q # 0 /\ c = w.q) \/ (w.e # 0 /\ c = w.e) \/ IsNL(c)
                 \/ \E i \in DOMAIN w.nl : w.nl[i] = c

(* The characters written for one character of a cell: [t, quote, bad].    *)
OneChar(w, c) ==
  IF ~Special(w, c) THEN [t |-> <<c>>, quote |-> FALSE, bad |-> FALSE]
  ELSE IF w.q = 0 THEN [t |-> <<w.e, c>>, quote |-> FALSE, bad |-> w.e = 0]
  ELSE IF c = w.q THEN [t |-> <<c, c>>, quote |-> TRUE, bad |-> FALSE]
  ELSE IF w.e # 0 /\ c = w.e THEN [t |-> <<c, c>>, quote |-> FALSE, bad |-> FALSE]
  ELSE [t |-> <<c>>, quote |-> TRUE, bad |-> FALSE]

CellText(w, cell, force) ==
  LET F(acc, c) == LET o == OneChar(w, c) IN
                   [t |-> acc.t \o o.t, quote |-> acc.quote \/ o.quote, bad |-> acc.bad \/ o.bad]
      r == FoldLeft(F, [t |-> <<>>, quote |-> force \/ w.all, bad |-> FALSE], cell)
  IN [t |-> IF r.quote THEN <<w.q>> \o r.t \o <<w.q>> ELSE r.t, bad |-> r.bad]

(* A record of one empty cell has to be quoted, else it would be no cell.  *)
OneEmpty(row) == Len(row) = 1 /\ row[1] = <<>>

Representable(w, row) ==
  /\ \A i \in DOMAIN row : ~CellText(w, row[i], FALSE).bad
  /\ OneEmpty(row) => w.q # 0

RECURSIVE JoinCells(_, _, _)
JoinCells(w, row, i) ==
  IF i > Len(row) THEN <<>>
  ELSE (IF i > 1 THEN <<w.d>> ELSE <<>>) \o CellText(w, row[i], OneEmpty(row)).t \o JoinCells(w, row, i + 1)

RowText(w, row) == JoinCells(w, row, 1) \o w.nl

RECURSIVE TableText(_, _)
TableText(w, rows) == IF rows = <<>> THEN <<>>
                      ELSE RowText(w, Head(rows)) \o TableText(w, Tail(rows))

WriterOf(d, q, e) == [d |-> d, q |-> q, e |-> e, nl |-> <<LF>>, all |-> FALSE]
RepresentableRows(w, rows) == SelectSeq(rows, LAMBDA r : Representable(w, r))
=============================================================================
