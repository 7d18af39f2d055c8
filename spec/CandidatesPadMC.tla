--------------------------- MODULE CandidatesPadMC --------------------------
(* Rows of ordinary characters in the middle of a text add no candidates     *)
(* beyond those that two copies of them give, however many there are, and    *)
(* do not change which delimiters are masked.                                *)
EXTENDS CandidatesPad
CONSTANT MaxLen
(* a , ' \ ~ LF                                                              *)
Alphabet == {97, 44, 39, 92, 126, 10}
CatOf == [u \in Alphabet \cup {85} |-> CASE u = 97 -> "Ll" [] u = 85 -> "Lu" [] u = 44 -> "Po" [] u = 39 -> "Po"
                                        [] u = 92 -> "Po" [] u = 126 -> "Sm" [] OTHER -> "Cc"]
X(s) == [c |-> s, k |-> [i \in DOMAIN s |-> CASE s[i] = 97 -> KL [] s[i] = 10 -> KWs [] OTHER -> KO]]
VARIABLES t, u
Init == t = <<>> /\ u = <<>>
Next == \/ Len(t) < MaxLen /\ u = <<>> /\ \E c \in Alphabet : t' = Append(t, c) /\ u' = u
        \/ Len(u) < MaxLen /\ \E c \in Alphabet : u' = Append(u, c) /\ t' = t
Spec == Init /\ [][Next]_<<t, u>>
Fillers == {<<97, 10>>, <<97, 44, 97, 10>>, <<44, 10>>, <<97, 44, 44, 10>>}
Same ==
  \A f \in Fillers : IsFiller(f) /\
    LET s == t \o f \o f \o u
        b == t \o f \o f \o f \o f \o u
        S == Candidates(X(s), CatOf, {-1})
    IN /\ Candidates(X(b), CatOf, {-1}) = S
       /\ \A p \in S : Masked(b, p) = Masked(s, p)
       /\ Blanked(X(b)) = SubSeq(Blanked(X(s)), 1, Len(t)) \o f \o f \o f \o f
                          \o SubSeq(Blanked(X(s)), Len(t) + 2 * Len(f) + 1, Len(Blanked(X(s))))
=============================================================================
