------------------------------ MODULE Dialect ------------------------------
(***************************************************************************)
(* Dialects as values: [d, q, e : code point or 0, s : strict].            *)
(***************************************************************************)
EXTENDS CsvParser

Comma == 44
Semicolon == 59

(* Comma dialects come first, then semicolon dialects, then the others.    *)
Class(x) == IF x.d = Comma THEN 1 ELSE IF x.d = Semicolon THEN 2 ELSE 3

(* A relation lt on 1..n is a strict total order that agrees with the      *)
(* equality of the dialects and with the classes.                          *)
OrderLaws(ds, lt) ==
  /\ \A i, j \in DOMAIN ds : ds[i] = ds[j] => ~lt[i][j]
  /\ \A i, j \in DOMAIN ds : ds[i] # ds[j] => (lt[i][j] <=> ~lt[j][i])
  /\ \A i, j, k \in DOMAIN ds : lt[i][j] /\ lt[j][k] => lt[i][k]
  /\ \A i, j \in DOMAIN ds : Class(ds[i]) < Class(ds[j]) => lt[i][j]

(* The order the implementation uses within a class.                       *)
KeyLess(x, y) ==
  IF x.d # y.d THEN x.d < y.d
  ELSE IF x.q # y.q THEN x.q < y.q
  ELSE IF x.e # y.e THEN x.e < y.e
  ELSE ~x.s /\ y.s
Less(x, y) == IF Class(x) # Class(y) THEN Class(x) < Class(y) ELSE KeyLess(x, y)

(* Format parameters: -1 leaves an attribute as it is.                     *)
Override(x, o) ==
  [d |-> IF o.d = -1 THEN x.d ELSE o.d,
   q |-> IF o.q = -1 THEN x.q ELSE o.q,
   e |-> IF o.e = -1 THEN x.e ELSE o.e,
   s |-> IF o.s = -1 THEN x.s ELSE o.s = 1]

ConfOf(x) == [d |-> x.d, q |-> x.q, e |-> x.e, strict |-> x.s, limit |-> NoLimit]

(* Exchange formats: a dialect and its image carry the same information.   *)
ToDict(x) == <<x.d, x.q, x.e, x.s>>
FromDict(t) == [d |-> t[1], q |-> t[2], e |-> t[3], s |-> t[4]]
(* csv dialects: no quote character is QUOTE_NONE.                         *)
ToCsv(x) == [delimiter |-> x.d, quotechar |-> x.q, escapechar |-> x.e,
             none |-> x.q = 0, strict |-> x.s]
FromCsv(c) == [d |-> c.delimiter, q |-> IF c.none THEN 0 ELSE c.quotechar,
               e |-> c.escapechar, s |-> c.strict]
=============================================================================
