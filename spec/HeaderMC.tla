------------------------------ MODULE HeaderMC -----------------------------
(* The vote counted row by row is the vote as defined, for all tables of      *)
(* short cells; and the laws that follow from the definition.                 *)
EXTENDS Header
CONSTANTS MaxRows, MaxCols, Max
(* the cells: empty, 1, a, 1., j *)
Texts == {<<>>, <<49>>, <<97>>, <<49, 46>>, <<106>>}
Kof(u) == IF u = 49 THEN KD ELSE IF u \in {97, 106} THEN KL ELSE KO
Cells == {[c |-> t, k |-> [i \in DOMAIN t |-> Kof(t[i])]] : t \in Texts}
Rows == UNION {[1..n -> Cells] : n \in 0..MaxCols}

VARIABLES rows, s
vars == <<rows, s>>
Init == \E h \in Rows : rows = <<h>> /\ s = StartCount(h)
Next == /\ Len(rows) < MaxRows
        /\ \E r \in Rows : rows' = Append(rows, r) /\ s' = CountRow(rows[1], s, r, Max)
Spec == Init /\ [][Next]_vars

CountIsVote == FinalCount(rows[1], s) = Vote(rows, Max)
(* What a cell can be read as: an integer is also a real, a real is also a    *)
(* complex number; so a header cell that fits a column of integers fits one   *)
(* of reals.                                                                  *)
Nested == Len(rows) = 1 => \A c \in Cells : (IsInt(c) => IsFloat(c)) /\ (IsFloat(c) => IsComplex(c))
(* Columns vote alone: exchanging two columns does not change the outcome.    *)
Swap(r) == IF Len(r) = 2 THEN <<r[2], r[1]>> ELSE r
ColumnsAlone == Vote([i \in DOMAIN rows |-> Swap(rows[i])], Max) = Vote(rows, Max)
(* Rows beyond the limit do not take part; irregular ones count towards it.   *)
Bounded == Len(rows) > Max + 2 => Vote(rows, Max) = Vote(SubSeq(rows, 1, Max + 2), Max)
(* The order of the rows below the header is irrelevant.                      *)
Reverse1(t) == [i \in DOMAIN t |-> IF i = 1 THEN t[1] ELSE t[Len(t) + 2 - i]]
OrderIrrelevant == Len(rows) <= Max + 2 => Vote(Reverse1(rows), Max) = Vote(rows, Max)
(* A header alone is one, an empty first record never is one.                 *)
Extremes == /\ Len(rows) = 1 /\ rows[1] # <<>> => HasHeader(rows, Max)
            /\ rows[1] = <<>> => ~HasHeader(rows, Max)
=============================================================================
