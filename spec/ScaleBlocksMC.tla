--------------------------- MODULE ScaleBlocksMC ----------------------------
(* Detection on texts of two blocks, each several times over.                *)
EXTENDS ScaleUp
CONSTANTS MaxLen, Alphabet
CatOf == [u \in Alphabet \cup {85, 39} |-> CASE u = 97 -> "Ll" [] u = 85 -> "Lu" [] u = 49 -> "Nd" [] u \in {10, 13} -> "Cc" [] OTHER -> "Po"]
X(t) == [c |-> t, k |-> [i \in DOMAIN t |-> CASE t[i] = 97 -> Cd!KL [] t[i] = 49 -> Cd!KD [] t[i] \in {10, 13} -> Cd!KWs
                                               [] OTHER -> Cd!KO]]
VARIABLES t, u
Init == t = <<>> /\ u = <<>>
Next == \/ Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c) /\ u' = u
        \/ t # <<>> /\ Len(u) < MaxLen /\ \E c \in Alphabet : u' = Append(u, c) /\ t' = t
Spec == Init /\ [][Next]_<<t, u>>

Ends(s) == s # <<>> /\ s[Len(s)] \in {10, 13}
Bs(n, m) == <<[x |-> X(t), n |-> n], [x |-> X(u), n |-> m]>>
DetectBlocks ==
  Ends(t) /\ Ends(u) =>
  \A nm \in {<<1, 2>>, <<3, 1>>} :
    LET bs == Bs(nm[1], nm[2])
        S == CandidatesOf(One(bs), CatOf, AnyDelim)
    IN Blocks(bs, S) =>
         /\ CandidatesOf(All(bs), CatOf, AnyDelim) = S
         /\ WScores(bs, S) = Scores(All(bs), S)
         /\ \A m \in {"auto", "normal", "consistency"} : WDetection(bs, CatOf, AnyDelim, m) = Detection(All(bs), CatOf, AnyDelim, m)
(* Ties.                                                                     *)
Pool == {[d |-> 44, q |-> q, e |-> e] : q \in {0, 39}, e \in {0, 92}} \cup {[d |-> 44, q |-> 34, e |-> 0]}
Ties ==
  Ends(t) /\ Ends(u) =>
  \A bs \in {<<[t |-> t, n |-> 3], [t |-> u, n |-> 1]>>, <<[t |-> t, n |-> 1], [t |-> u, n |-> 2], [t |-> t, n |-> 2]>>} :
    \A S \in SUBSET Pool : Cardinality(S) \in 2..4 /\ TieBlocks(bs, S) => Tb!Winner(Spelled(bs), S) = Tb!Winner(Joined(bs), S)
(* The forms of rows, with the odd ones between the others.                  *)
Delims == <<44, 59>>
FormBlocks ==
  Ends(t) /\ Ends(u) =>
  \A bs \in {<<[t |-> t, n |-> 2], [t |-> u, n |-> 3]>>, <<[t |-> t, n |-> 2], [t |-> u, n |-> 1], [t |-> t, n |-> 3]>>} :
    RowBlocks(bs) => LET f == Nf!Normal(Joined(bs), Delims, {92}) IN
                     /\ Nf!Normal(Spelled(bs), Delims, {92}) = f
                     /\ f.k \in {1, 2, 3} =>
                          Nf!Table(Spelled(bs), f.p) = FoldLeft(LAMBDA a, b : a \o Sc!Copies(Nf!Table(b.t, f.p), b.n), <<>>, bs)
=============================================================================
