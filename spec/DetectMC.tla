------------------------------ MODULE DetectMC -----------------------------
(* Detection for all short texts: the answer fits the text, restricting the  *)
(* delimiters restricts the answer, and leaving out type scores of dialects  *)
(* with a low pattern score, in whatever order they are visited, changes     *)
(* nothing.                                                                  *)
EXTENDS Detect
CONSTANTS MaxLen, Alphabet
CatOf == [u \in Alphabet \cup {85, 39} |-> CASE u = 97 -> "Ll" [] u = 85 -> "Lu" [] u = 49 -> "Nd" [] u = 44 -> "Po"
                                        [] u = 39 -> "Po" [] u = 92 -> "Po" [] u = 126 -> "Sm" [] u = 10 -> "Cc"
                                        [] u = 59 -> "Po"]
X(t) == [c |-> t, k |-> [i \in DOMAIN t |-> CASE t[i] = 97 -> Cd!KL [] t[i] = 49 -> Cd!KD [] t[i] = 10 -> Cd!KWs
                                               [] OTHER -> Cd!KO]]
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u)
Spec == Init /\ [][Next]_t

Fits(r, ds) == r = None \/ (FitWhy(X(t), CatOf, ds, r) = "ok" /\ Ps!ParseText(Ps!Conf(r.d, r.q, r.e), t).end = "stop")
AllFit == \A ds \in {AnyDelim, <<44>>, <<>>} : \A m \in {"auto", "normal", "consistency"} :
  Fits(Detection(X(t), CatOf, ds, m).r, ds)

(* The scores when the dialects are visited in the order of the sequence s.   *)
RECURSIVE Visit(_, _, _)
Visit(s, i, inc) ==    \* inc: the best so far
  IF i > Len(s) THEN {}
  ELSE IF inc # None /\ CmpBig(BigProduct(<<s[i].pat.num>> \o DenOf(inc)), BigProduct(NumOf(inc) \o <<s[i].pat.den>>)) = -1
       THEN Visit(s, i + 1, inc)
  ELSE {s[i]} \cup Visit(s, i + 1, IF inc = None \/ CmpQ(s[i], inc) = 1 THEN s[i] ELSE inc)
SkipHarmless ==
  LET S == Scores(X(t), CandidatesOf(X(t), CatOf, AnyDelim))
      s == SetToSeq(S)
  IN Best(Visit(s, 1, None)) = Best(S) /\ Best(Visit(Reverse(s), 1, None)) = Best(S)
=============================================================================
