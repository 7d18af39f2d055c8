---------------------------- MODULE ScaleWriteMC ---------------------------
(* What is written for a table with stretched characters, or many times over, *)
(* is the text for the table, stretched or many times over.                  *)
EXTENDS Scale
W == INSTANCE CsvWriter
CONSTANTS MaxLen, Cells, Factor
CellSet == {<<>>, <<97>>, <<39>>, <<44, 97>>, <<97, 10>>, <<92, 39>>, <<97, 92>>}
Ch == 97
Configs == {[d |-> 44, q |-> q, e |-> e, nl |-> nl, all |-> a /\ q # 0] : q \in {0, 39}, e \in {0, 92}, nl \in {<<10>>, <<13, 10>>}, a \in BOOLEAN}
VARIABLE rows
Init == rows = <<<<>>>>
Next == LET n == Len(rows) IN
        \/ Len(rows) + Len(rows[n]) < MaxLen /\ \E c \in Cells : rows' = [rows EXCEPT ![n] = Append(@, c)]
        \/ Len(rows) + Len(rows[n]) < MaxLen /\ rows' = Append(rows, <<>>)
Spec == Init /\ [][Next]_rows

Ok(w, rs) == \A i \in DOMAIN rs : W!Representable(w, rs[i])
Long == [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> Stretch(rows[i][j], Ch, Factor)]]
StretchedWrite == \A w \in Configs : /\ Ok(w, Long) = Ok(w, rows)
                                     /\ Ok(w, rows) => W!TableText(w, Long) = Stretch(W!TableText(w, rows), Ch, Factor)
RepeatedWrite == \A w \in Configs : Ok(w, rows) => W!TableText(w, Copies(rows, 3)) = Copies(W!TableText(w, rows), 3)
=============================================================================
