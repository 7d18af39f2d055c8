----------------------------- MODULE ScaleUpMC -----------------------------
EXTENDS ScaleUp
CONSTANTS MaxLen, Alphabet, Times
CatOf == [u \in Alphabet \cup {85, 39} |-> CASE u = 97 -> "Ll" [] u = 85 -> "Lu" [] u = 49 -> "Nd" [] u = 44 -> "Po"
                                        [] u = 39 -> "Po" [] u = 92 -> "Po" [] u = 10 -> "Cc" [] u = 13 -> "Cc" [] u = 59 -> "Po"]
X(t) == [c |-> t, k |-> [i \in DOMAIN t |-> CASE t[i] = 97 -> Cd!KL [] t[i] = 49 -> Cd!KD [] t[i] \in {10, 13} -> Cd!KWs
                                               [] OTHER -> Cd!KO]]
Delims == <<44, 59>>
Esc == {92}
Pool == {[d |-> 44, q |-> q, e |-> e] : q \in {0, 39}, e \in {0, 92}} \cup {[d |-> 45, q |-> 39, e |-> 0]}
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u)
Spec == Init /\ [][Next]_t

Big == Sc!Copies(t, Times)
Long == Sc!Stretch(t, 97, Times)
Normals(r) == Nf!Normal(r, Delims, Esc)

FormRepeated == FullRows(t) => Normals(Big) = Normals(t)
FormStretched == Normals(Long) = Normals(t)
TieStretched == \A S \in SUBSET Pool : Cardinality(S) \in 2..4 => Tb!Winner(Long, S) = Tb!Winner(t, S)
TieRepeated == \A S \in SUBSET Pool : Cardinality(S) \in 2..4 /\ WholeFor(t, S) => Tb!Winner(Big, S) = Tb!Winner(t, S)
DetectRepeated ==
  FullRows(t) =>
  LET S == CandidatesOf(X(t), CatOf, AnyDelim) IN
  /\ CandidatesOf(X(Big), CatOf, AnyDelim) = S
  /\ Repeatable(X(t), S) =>
       \A m \in {"auto", "normal", "consistency"} :
         Detection(X(Big), CatOf, AnyDelim, m) = Detection(X(t), CatOf, AnyDelim, m)
=============================================================================
