----------------------------- MODULE CellPumpMC ----------------------------
(* Whether a part of a cell occurs eight times in a row or six times more    *)
(* makes no difference to the type: no definition counts that far.           *)
EXTENDS CellTypes
CONSTANTS MaxLen, Alphabet
Class(u) == IF u \in N09 THEN KD ELSE IF u \in AZ THEN KL ELSE IF u = 32 THEN KWs ELSE IF u = 36 THEN KSc ELSE KO
Cell(t) == [c |-> t, k |-> [i \in DOMAIN t |-> Class(t[i])]]

VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u)
Spec == Init /\ [][Next]_t

RECURSIVE Times8(_, _)
Times8(s, k) == IF k = 0 THEN <<>> ELSE s \o Times8(s, k - 1)
Pumped(i, j, k) == SubSeq(t, 1, i - 1) \o Times8(SubSeq(t, i, j), k) \o SubSeq(t, j + 1, Len(t))
Pumping == \A i \in 1..Len(t) : \A j \in i..Len(t) : \A q \in BOOLEAN :
  LET a == Type(Cell(Pumped(i, j, 8)), q)
  IN Type(Cell(Pumped(i, j, 14)), q) = a /\ Type(Cell(Pumped(i, j, 20)), q) = a
=============================================================================
