----------------------------- MODULE TieBreakMC ----------------------------
(* Laws of tie breaking, for all short texts and all sets of tied dialects.  *)
EXTENDS TieBreak, TLC
CONSTANTS MaxLen, Alphabet
Pool == {[d |-> d, q |-> q, e |-> e] : d \in {44}, q \in {0, 34, 39}, e \in {0, 92}}
        \cup {[d |-> d, q |-> q, e |-> 0] : d \in {32, 45}, q \in {0, 39}}
VARIABLES t, S
Init == t = <<>> /\ S \in {x \in SUBSET Pool : Cardinality(x) \in 1..5}
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u) /\ UNCHANGED S
Spec == Init /\ [][Next]_<<t, S>>

W == Winner(t, S)
OneOfThem == W \in S \cup {None}
OtherSizes == Cardinality(S) \notin 2..4 => W = None
Symmetric == Cardinality(S) = 2 => \A a, b \in S : a # b => Two(t, a, b) = Two(t, b, a)
SameDelim == Cardinality(S) > 2 /\ ~SameDelimiter(S) => W = None
(* A quote that has no effect anywhere is never chosen over no quote, and one *)
(* that has an effect is never dropped, unless an escape character explains it.*)
QuoteRule == \A a, b \in S :
  (S = {a, b} /\ a.d = b.d /\ a.e = b.e /\ a.q = 0 /\ b.q # 0) =>
     (W = a <=> TableOf(a, t) = TableOf(b, t))
(* The winner's table is the same whenever all tied dialects agree on it.     *)
Harmless == (\A a, b \in S : TableOf(a, t) = TableOf(b, t)) /\ W # None /\ Cardinality(S) = 4
            => \A a \in S : TableOf(W, t) = TableOf(a, t)
(* Reduction never leaves more dialects, and keeps to the tied ones.          *)
Reducing == Reduced(t, S) \subseteq S
=============================================================================
