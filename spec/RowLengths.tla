----------------------------- MODULE RowLengths -----------------------------
(* Tables of plain cells: their abstraction is given by the numbers of cells *)
(* in the rows (RowLengthsMC), so tables with hundreds of row patterns need  *)
(* not be spelled out.                                                       *)
EXTENDS Abstraction

(* a,a,a LF ...                                                              *)
LRow(n) == [i \in 1..(2 * n) |-> IF i = 2 * n THEN 10 ELSE IF i % 2 = 1 THEN 97 ELSE 44]
LText(ls) == FoldLeft(LAMBDA a, n : a \o LRow(n), <<>>, ls)
LPattern(n) == [i \in 1..(2 * n - 1) |-> IF i % 2 = 1 THEN Cc ELSE Dd]
RECURSIVE LSum(_, _, _)
LSum(ls, S, eps) == IF S = {} THEN 0
                    ELSE LET n == CHOOSE n \in S : TRUE IN Term(Count(ls, n), n, eps) + LSum(ls, S \ {n}, eps)
LScore(ls, eps) == LET S == {ls[i] : i \in DOMAIN ls} IN LSum(ls, S, eps) \div Cardinality(S)
=============================================================================
