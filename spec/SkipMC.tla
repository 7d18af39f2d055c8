------------------------------- MODULE SkipMC ------------------------------
(***************************************************************************)
(* Leaving out type scores.  Dialects 1..N with arbitrary pattern scores P  *)
(* and type scores T/Unit <= 1 are visited one after the other; the type    *)
(* score of a dialect is left out if its pattern score is below the best    *)
(* score so far (Rule "<").  The dialects with the highest score among      *)
(* those computed are the same as without skipping.  With a type score that *)
(* could exceed 1, or with a stricter rule, they would not be.              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS N, MaxP, Unit, MaxT, Rule
VARIABLES P, T, i, best, computed
vars == <<P, T, i, best, computed>>
D == 1..N
Init == /\ P \in [D -> 0..MaxP] /\ T \in [D -> 1..MaxT]
        /\ i = 1 /\ best = -1 /\ computed = {}
Q(d) == P[d] * T[d]                      \* in units of 1/Unit
Low(d) == IF Rule = "<" THEN P[d] * Unit < best ELSE P[d] * Unit <= best
Visit == /\ i <= N
         /\ i' = i + 1
         /\ IF best >= 0 /\ Low(i) THEN UNCHANGED <<best, computed>>
            ELSE /\ best' = IF Q(i) > best THEN Q(i) ELSE best
                 /\ computed' = computed \cup {i}
         /\ UNCHANGED <<P, T>>
Spec == Init /\ [][Visit]_vars
Top(S) == {d \in S : \A e \in S : Q(d) >= Q(e)}
SameBest == i > N => Top(computed) = Top(D)
=============================================================================
