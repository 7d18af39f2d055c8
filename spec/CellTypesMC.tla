---------------------------- MODULE CellTypesMC ----------------------------
(* Consequences of the definitions, for all short cells over an alphabet     *)
(* that reaches most types.                                                  *)
EXTENDS CellTypes
CONSTANT MaxLen
(* 1 . , - : / a T space % $ @ { }                                           *)
Alphabet == {49, 46, 44, 45, 58, 47, 97, 32, 37, 36, 64, 123, 125}
Class(u) == IF u = 49 THEN KD ELSE IF u = 97 THEN KL ELSE IF u = 32 THEN KWs ELSE IF u = 36 THEN KSc ELSE KO
Cell(t) == [c |-> t, k |-> [i \in DOMAIN t |-> Class(t[i])]]

VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u)
Spec == Init /\ [][Next]_t

(* Quoting matters only for the punctuation of text.                         *)
QuotedOnlyText ==
  LET u == Type(Cell(t), FALSE)
      q == Type(Cell(t), TRUE)
  IN u # q => q = "unicode_alphanum" /\ u \in {"unknown", "bytearray", "json"}
(* White space around a cell does not matter.                                *)
Stripped == \A q \in BOOLEAN : /\ Type(Cell(<<32>> \o t), q) = Type(Cell(t), q)
                               /\ Type(Cell(Append(t, 32)), q) = Type(Cell(t), q)
(* The ordered semantics of matching finds the same matches as the set        *)
(* semantics.                                                                *)
SameMatches == \A r \in {Url, Number1, Number2, Date, UnixPath} :
  LET o == Order(r, Cell(t), 0)
  IN {o[i] : i \in DOMAIN o} = Ends(r, Cell(t), {0})
(* A number stays one with a sign; a percentage is a number and a sign.       *)
Signs == IsNumber(Cell(t)) /\ t[1] \notin {43, 45, 32} => IsNumber(Cell(<<45>> \o t))
Percent == Type(Cell(t), FALSE) = "percentage" => \E n \in 1..Len(t) : IsNumber(Cell(SubSeq(t, 1, n)))
=============================================================================
