------------------------------- MODULE DictRW ------------------------------
(***************************************************************************)
(* DictReader and DictWriter.                                              *)
(*                                                                         *)
(* Keys and values are tagged: [t : "s", s : text, l : <<>>] a text,       *)
(* [t : "n", ...] None, [t : "l", s : <<>>, l : Seq(text)] a list of cells.*)
(* A dictionary is a sequence of pairs [k, v] without repeated keys.       *)
(***************************************************************************)
EXTENDS CsvWriter

Str(x) == [t |-> "s", s |-> x, l |-> <<>>]
Nil == [t |-> "n", s |-> <<>>, l |-> <<>>]
Lst(x) == [t |-> "l", s |-> <<>>, l |-> x]

Put(d, k, v) ==
  IF \E i \in DOMAIN d : d[i].k = k
  THEN [i \in DOMAIN d |-> IF d[i].k = k THEN [k |-> k, v |-> v] ELSE d[i]]
  ELSE Append(d, [k |-> k, v |-> v])

Min2(a, b) == IF a < b THEN a ELSE b

(* The dictionary for one record.                                          *)
ToDictRow(names, row, restkey, restval) ==
  LET n  == Len(names)
      m  == Len(row)
      F(d, i) == IF i <= m THEN Put(d, names[i], Str(row[i])) ELSE Put(d, names[i], restval)
      d0 == FoldLeft(F, <<>>, [i \in 1..n |-> i])
  IN IF m > n THEN Put(d0, restkey, Lst(SubSeq(row, n + 1, m))) ELSE d0

Duplicates(names) == \E i, j \in DOMAIN names : i < j /\ names[i] = names[j]

----------------------------------------------------------------------------
(* The state of a DictReader: names (<<>> or <<sequence of keys>>), the   *)
(* numbers of lines (pos) and of records (recs) consumed.  A reader configuration is                     *)
(* [p, l, rk, rv] (parser configuration, lines, restkey, restval).          *)
RdStart(given) == [names |-> given, pos |-> 0, recs |-> 0]

(* Asking for the field names.                                             *)
Ask(c, s) ==
  IF s.names # <<>> THEN [o |-> [k |-> "names", n |-> s.names[1]], s |-> s]
  ELSE LET r == NextRecord(c.p, c.l, s.pos + 1) IN
       IF r.o.k = "row" THEN
         LET row == Plain(<<r.o.row>>)[1]
             ns  == [i \in DOMAIN row |-> Str(row[i])]
         IN [o |-> [k |-> "names", n |-> ns], s |-> [names |-> <<ns>>, pos |-> r.n - 1, recs |-> s.recs + 1]]
       ELSE IF r.o.k = "stop" THEN [o |-> [k |-> "none"], s |-> [s EXCEPT !.pos = r.n - 1]]
       ELSE [o |-> [k |-> "err"], s |-> [s EXCEPT !.pos = r.n - 1]]

(* The next record that is not empty, m: the number of records on the way.  *)
RECURSIVE NextFull(_, _, _)
NextFull(c, i, m) ==
  LET r == NextRecord(c.p, c.l, i) IN
  IF r.o.k = "row" /\ r.o.row = <<>> THEN NextFull(c, r.n, m + 1)
  ELSE [o |-> r.o, n |-> r.n, m |-> IF r.o.k = "row" THEN m + 1 ELSE m]

NextDict(c, s) ==
  LET a == Ask(c, s) IN
  IF a.o.k = "none" THEN [o |-> [k |-> "stop"], s |-> a.s]
  ELSE IF a.o.k = "err" THEN a
  ELSE LET r == NextFull(c, a.s.pos + 1, a.s.recs)
           s2 == [a.s EXCEPT !.pos = r.n - 1, !.recs = r.m]
       IN IF r.o.k = "row"
          THEN [o |-> [k |-> "dict", d |-> ToDictRow(a.s.names[1], Plain(<<r.o.row>>)[1], c.rk, c.rv)], s |-> s2]
          ELSE [o |-> [k |-> r.o.k], s |-> s2]

SetNames(s, ns) == [s EXCEPT !.names = <<ns>>]

----------------------------------------------------------------------------
(* A DictWriter: names, restval (a text), raise.  The record of a           *)
(* dictionary d (pairs with text values).                                   *)
Lookup(d, k, dflt) ==
  IF \E i \in DOMAIN d : d[i].k = k THEN d[CHOOSE i \in DOMAIN d : d[i].k = k].v ELSE dflt
HasUnknown(names, d) == \E i \in DOMAIN d : \A j \in DOMAIN names : names[j] # d[i].k
RecordOf(names, d, restval) == [j \in DOMAIN names |-> Lookup(d, names[j], restval)]
=============================================================================
