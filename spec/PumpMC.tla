------------------------------- MODULE PumpMC -------------------------------
(* Detection on texts with long runs of a character: eight in a row or six   *)
(* more make no difference to candidates, scores and answer (CellPumpMC for  *)
(* the types of cells, ScaleMC for reading and abstraction).                 *)
EXTENDS ScaleUp
CONSTANTS MaxLen, Alphabet, Pumped
CatOf == [u \in Alphabet \cup {85, 39} |-> CASE u = 97 -> "Ll" [] u = 85 -> "Lu" [] u = 49 -> "Nd" [] u = 32 -> "Zs" [] u \in {10, 13} -> "Cc" [] OTHER -> "Po"]
X(t) == [c |-> t, k |-> [i \in DOMAIN t |-> CASE t[i] = 97 -> Cd!KL [] t[i] = 49 -> Cd!KD [] t[i] \in {10, 13, 32} -> Cd!KWs
                                               [] OTHER -> Cd!KO]]
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u)
Spec == Init /\ [][Next]_t

Long(u, k) == X(Sc!Stretch(t, u, k))
Same ==
  \A u \in Pumped :
    LET a == Long(u, 8)
        b == Long(u, 14)
        S == CandidatesOf(a, CatOf, AnyDelim)
    IN /\ CandidatesOf(b, CatOf, AnyDelim) = S
       /\ Scores(b, S) = Scores(a, S)
       /\ \A m \in {"auto", "normal", "consistency"} : Detection(b, CatOf, AnyDelim, m) = Detection(a, CatOf, AnyDelim, m)
=============================================================================
