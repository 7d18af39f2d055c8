----------------------------- MODULE NormalForm ----------------------------
(***************************************************************************)
(* The normal forms.  Texts, rows and cells are sequences of code points;  *)
(* a dialect is [d, q, e], 0 meaning none.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sgl == 39
Dbl == 34
QuoteOrder == <<Sgl, Dbl>>
DefaultDelimiters == <<44, 59, 124, 9>>     \* , ; | TAB

RECURSIVE StripEnds(_)
StripEnds(t) == IF t # <<>> /\ t[Len(t)] \in {10, 13} THEN StripEnds(SubSeq(t, 1, Len(t) - 1)) ELSE t

(* The parts of s between the occurrences of the sequence w.                 *)
RECURSIVE PartsFrom(_, _, _, _)
PartsFrom(s, w, i, a) ==      \* i: where to look, a: where the current part began
  IF i + Len(w) - 1 > Len(s) THEN <<SubSeq(s, a, Len(s))>>
  ELSE IF SubSeq(s, i, i + Len(w) - 1) = w THEN <<SubSeq(s, a, i - 1)>> \o PartsFrom(s, w, i + Len(w), i + Len(w))
  ELSE PartsFrom(s, w, i + 1, a)
Parts(s, w) == PartsFrom(s, w, 1, 1)
Contains(s, w) == Len(Parts(s, w)) > 1

(* Rows end with CRLF if that occurs at all, else with LF, else with CR.     *)
FileRows(t0) ==
  LET t == StripEnds(t0) IN
  IF Contains(t, <<13, 10>>) THEN Parts(t, <<13, 10>>)
  ELSE IF Contains(t, <<10>>) THEN Parts(t, <<10>>)
  ELSE IF Contains(t, <<13>>) THEN Parts(t, <<13>>)
  ELSE <<t>>

(* The cells of a row: its parts between the delimiters outside quotes.      *)
RECURSIVE CellsFrom(_, _, _, _, _)
CellsFrom(row, p, i, a, inq) ==
  IF i > Len(row) THEN <<SubSeq(row, a, Len(row))>>
  ELSE IF row[i] = p.d /\ ~inq THEN <<SubSeq(row, a, i - 1)>> \o CellsFrom(row, p, i + 1, i + 1, FALSE)
  ELSE CellsFrom(row, p, i + 1, a, IF row[i] = p.q THEN ~inq ELSE inq)
RowCells(row, p) == CellsFrom(row, p, 1, 1, FALSE)

In2(s, u) == \E i \in DOMAIN s : s[i] = u
QuotedBy(c, q) == Len(c) >= 2 /\ c[1] = q /\ c[Len(c)] = q
Inner(c) == SubSeq(c, 2, Len(c) - 1)
Nested(c, q) == In2(Inner(c), q)
AnyQuoted(c) == QuotedBy(c, Sgl) \/ QuotedBy(c, Dbl)
Alnum == (48..57) \cup (65..90) \cup (97..122)
(* . _ & - @ + % ( ) space /                                                 *)
ElementaryChars == Alnum \cup {46, 95, 38, 45, 64, 43, 37, 40, 41, 32, 47}
Elementary(c) == c # <<>> /\ \A i \in DOMAIN c : c[i] \in ElementaryChars

(* A table: every row has the delimiter, all have the same number of cells.  *)
IsTable(rows, p) ==
  LET n == Len(RowCells(rows[1], p)) IN
  n > 1 /\ \A i \in DOMAIN rows : In2(rows[i], p.d) /\ Len(RowCells(rows[i], p)) = n
AllCells(rows, p, P(_)) == \A i \in DOMAIN rows : LET cs == RowCells(rows[i], p) IN \A j \in DOMAIN cs : P(cs[j])

Form1(rows, p) == IsTable(rows, p) /\ AllCells(rows, p, LAMBDA c : QuotedBy(c, p.q) /\ ~Nested(c, p.q))
Form2(rows, p) == IsTable(rows, p) /\ AllCells(rows, p, LAMBDA c : c = <<>> \/ Elementary(c))
Form3(rows, p) ==
  /\ Len(rows) > 1
  /\ IsTable(rows, p)
  /\ AllCells(rows, p, LAMBDA c : IF AnyQuoted(c) THEN Len(c) > 2 /\ QuotedBy(c, p.q) /\ ~Nested(c, p.q)
                                  ELSE Elementary(c))
Form4(rows, p) ==
  /\ Len(rows) > 1
  /\ \A i \in DOMAIN rows :
       LET c == rows[i]
           ok == Alnum \cup {46, 95, 38, 45}
       IN IF p.q = 0 THEN \A k \in DOMAIN c : c[k] \in ok
          ELSE QuotedBy(c, p.q) /\ \A k \in DOMAIN Inner(c) : Inner(c)[k] \in ok \cup {32}
Form5(rows, p) ==
  /\ Len(rows) > 1
  /\ \A i \in DOMAIN rows : Len(rows[i]) > 2 /\ QuotedBy(rows[i], p.q) /\ In2(rows[i], p.d)
  /\ Form2([i \in DOMAIN rows |-> Inner(rows[i])], [p EXCEPT !.q = 0])
IsForm(k, rows, p) == CASE k = 1 -> Form1(rows, p) [] k = 2 -> Form2(rows, p) [] k = 3 -> Form3(rows, p)
                        [] k = 4 -> Form4(rows, p) [] k = 5 -> Form5(rows, p)

(* The forms and dialects in the order in which they are tried.              *)
Dia(d, q) == [d |-> d, q |-> q, e |-> 0]
Cand(k, d, q) == [k |-> k, p |-> Dia(d, q)]
RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)
Trials(ds) ==
  [i \in DOMAIN ds |-> Cand(2, ds[i], 0)]
  \o Concat([i \in DOMAIN ds |-> Concat([j \in 1..2 |->
        <<Cand(1, ds[i], QuoteOrder[j]), Cand(3, ds[i], QuoteOrder[j]), Cand(5, ds[i], QuoteOrder[j])>>], 1)], 1)
  \o <<Cand(4, 0, Sgl), Cand(4, 0, Dbl), Cand(4, 0, 0)>>

(* A potential escape character (a set of code points) in front of a         *)
(* delimiter or quote.                                                       *)
HasEscape(t, ds, escapes) ==
  \E i \in 1..(Len(t) - 1) : t[i] \in escapes /\ (t[i + 1] \in {Sgl, Dbl} \/ In2(ds, t[i + 1]))

NoForm == Cand(0, 0, 0)
(* The form and dialect of a text, or NoForm.                                *)
Normal(t, ds, escapes) ==
  IF ds # <<>> /\ HasEscape(t, ds, escapes) THEN NoForm
  ELSE LET rows == FileRows(t)
           tr == Trials(ds)
           hits == {i \in DOMAIN tr : IsForm(tr[i].k, rows, tr[i].p)}
       IN IF hits = {} THEN NoForm ELSE tr[CHOOSE i \in hits : \A j \in hits : i <= j]

(* The table of a text in form 1, 2 or 3.                                    *)
Bare(c, q) == IF q # 0 /\ QuotedBy(c, q) THEN Inner(c) ELSE c
Table(t, p) == LET rows == FileRows(t) IN
  [i \in DOMAIN rows |-> LET cs == RowCells(rows[i], p) IN [j \in DOMAIN cs |-> Bare(cs[j], p.q)]]
=============================================================================
