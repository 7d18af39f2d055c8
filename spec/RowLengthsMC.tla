---------------------------- MODULE RowLengthsMC ----------------------------
EXTENDS RowLengths
CONSTANTS MaxRows, MaxCells
VARIABLE ls
Init == \E n \in 1..MaxCells : ls = <<n>>
Next == Len(ls) < MaxRows /\ \E n \in 1..MaxCells : ls' = Append(ls, n)
Spec == Init /\ [][Next]_ls
P == [d |-> 44, q |-> 39, e |-> 92]
ByLengths == LET a == Abstract(P, LText(ls)) IN
  /\ Patterns(a) = [i \in DOMAIN ls |-> LPattern(ls[i])]
  /\ \A eps \in {0, 1000, 500000} : Score(a, eps) = LScore(ls, eps)
=============================================================================
