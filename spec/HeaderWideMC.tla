---------------------------- MODULE HeaderWideMC ----------------------------
(* A letter that occurs in no number, or a digit, in any number instead of    *)
(* one: the cell can be read as the same kinds of numbers.                    *)
EXTENDS Header
CONSTANTS MaxLen, Times
(* 1 x . e j _ - ( ) space                                                    *)
Alphabet == {49, 120, 46, 101, 106, 95, 45, 40, 41, 32}
Kof(u) == CASE u = 49 -> KD [] u \in {120, 101, 106} -> KL [] u = 32 -> KWs [] OTHER -> KO
X(t) == [c |-> t, k |-> [i \in DOMAIN t |-> Kof(t[i])]]
RECURSIVE Widen(_, _)
Widen(t, u) == IF t = <<>> THEN <<>> ELSE (IF Head(t) = u THEN [i \in 1..Times |-> u] ELSE <<Head(t)>>) \o Widen(Tail(t), u)
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u)
Spec == Init /\ [][Next]_t
Steady == \A u \in {49, 120} : HSteady(u) /\
  LET a == X(t)
      b == X(Widen(t, u))
  IN IsInt(a) = IsInt(b) /\ IsFloat(a) = IsFloat(b) /\ IsComplex(a) = IsComplex(b)
=============================================================================
