----------------------------- MODULE DialectMC -----------------------------
(* The laws of dialects over all small values: the order of the              *)
(* implementation is a total order with the promised classes, the exchange   *)
(* formats are lossless, overriding is idempotent and touches one attribute. *)
EXTENDS Dialect, FiniteSets, TLC
Vals == {0, Comma, Semicolon, 97}
Dialects == [d : Vals, q : {0, 34}, e : {0, 92}, s : BOOLEAN]
VARIABLES x, y, z
Init == x \in Dialects /\ y \in Dialects /\ z \in Dialects
Next == UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
Laws == LET ds == <<x, y, z>> IN OrderLaws(ds, [i \in 1..3 |-> [j \in 1..3 |-> Less(ds[i], ds[j])]])
Lossless == FromDict(ToDict(x)) = x /\ FromCsv(ToCsv(x)) = x
None == [d |-> -1, q |-> -1, e |-> -1, s |-> -1]
Overriding == /\ Override(x, None) = x
              /\ Override(x, [None EXCEPT !.d = 9]) = [x EXCEPT !.d = 9]
              /\ Override(x, [None EXCEPT !.q = 9]) = [x EXCEPT !.q = 9]
              /\ Override(x, [None EXCEPT !.e = 9]) = [x EXCEPT !.e = 9]
              /\ Override(x, [None EXCEPT !.s = 1]) = [x EXCEPT !.s = TRUE]
=============================================================================
