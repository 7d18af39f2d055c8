------------------------------ MODULE FileRead -----------------------------
(***************************************************************************)
(* Reading a file: its text x, how many characters to detect on (0: all),  *)
(* and either a given dialect or what detection says of the prefix.        *)
(***************************************************************************)
EXTENDS DictRW

Prefix(x, num) == IF num = 0 \/ num >= Len(x) THEN x ELSE SubSeq(x, 1, num)

(* What reading the table gives: [out, rows].  p is the dialect, given or    *)
(* detected, nodet: there is none.                                           *)
TableOf(x, nodet, p) ==
  IF nodet THEN [out |-> "none", rows |-> <<>>]
  ELSE LET b == ParseText(p, x)
       IN [out |-> IF b.end = "stop" THEN "ok" ELSE "error", rows |-> Plain(b.rows)]

(* The same as dictionaries.                                                 *)
RECURSIVE AllDicts(_, _, _)
AllDicts(c, s, acc) ==
  LET q == NextDict(c, s)
  IN IF q.o.k = "dict" THEN AllDicts(c, q.s, Append(acc, q.o.d))
     ELSE [out |-> IF q.o.k = "stop" THEN "ok" ELSE "error", rows |-> acc]
DictsOf(x, nodet, p) ==
  IF nodet THEN [out |-> "none", rows |-> <<>>]
  ELSE AllDicts([p |-> p, l |-> SplitLines(x), rk |-> Nil, rv |-> Nil], RdStart(<<>>), <<>>)
=============================================================================
