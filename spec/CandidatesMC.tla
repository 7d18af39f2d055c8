--------------------------- MODULE CandidatesMC ----------------------------
(* Consequences of the definition of the candidates, for all short texts.    *)
EXTENDS Candidates
CONSTANT MaxLen
(* a , ' \ ~                                                                 *)
Alphabet == {97, 44, 39, 92, 126}
CatOf == [u \in Alphabet \cup {85} |-> CASE u = 97 -> "Ll" [] u = 85 -> "Lu" [] u = 44 -> "Po" [] u = 39 -> "Po"
                                        [] u = 92 -> "Po" [] u = 126 -> "Sm"]
X(t) == [c |-> t, k |-> [i \in DOMAIN t |-> IF t[i] = 97 THEN KL ELSE KO]]

VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u)
Spec == Init /\ [][Next]_t

All == Candidates(X(t), CatOf, {-1})
None == [d |-> 0, q |-> 0, e |-> 0]
Occur(u) == u = 0 \/ u \in Chars(t)
FromText == None \in All /\ \A p \in All : Occur(p.d) /\ Occur(p.q) /\ Occur(p.e)
EscapeUsed == \A p \in All : p.e # 0 => \E i \in 1..(Len(t) - 1) : t[i] = p.e /\ t[i + 1] \in {p.d, p.q}
Restricted == \A S \in SUBSET {44, 126, 92} :
  Candidates(X(t), CatOf, S) = {p \in All : p.d = 0 \/ p.d \in S}
(* Removing masked delimiters keeps the dialects without a delimiter, and all *)
(* those whose quote character occurs nowhere before the delimiter.           *)
MaskedSound == \A p \in All : Masked(t, p) =>
  /\ p.d # 0
  /\ p.q # 0
  /\ p.d # p.q => \A i \in DOMAIN t : t[i] = p.d => \E j \in 1..(i - 1) : t[j] = p.q
=============================================================================
