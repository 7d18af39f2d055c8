--------------------------- MODULE AbstractionMC ---------------------------
(* Laws of the abstraction over all short texts, built character by          *)
(* character, and its agreement with the parser.                             *)
EXTENDS Abstraction, CsvParser, TLC
CONSTANT MaxLen
Dl == 44  Qt == 39  Es == 92  Ch == 97
VARIABLES p, t
Init == p \in [d : {0, Dl}, q : {0, Qt}, e : {0, Es}] /\ t = <<>>
Next == Len(t) < MaxLen /\ UNCHANGED p /\ \E c \in {Dl, Qt, Es, Ch, LF, CR} : t' = Append(t, c)
Spec == Init /\ [][Next]_<<p, t>>

A == Abstract(p, t)
Alphabet == \A i \in DOMAIN A : A[i] \in {Cc, Dd, Qq, Rr}
NoTrailing == A # <<>> => A[Len(A)] # Rr
(* Without quotes a row pattern is an alternation of cells and delimiters.   *)
Alternates == p.q = 0 => \A i \in 1..(Len(A) - 1) : ~(A[i] = A[i+1])
CellsEverywhere == p.q = 0 => \A i \in DOMAIN A : A[i] = Dd => i > 1 /\ i < Len(A) /\ A[i-1] = Cc /\ A[i+1] = Cc
(* Without quotes and escapes the patterns have as many cells as the records *)
(* that the parser returns, blank lines apart.                               *)
CellCounts ==
  p.q = 0 /\ p.e = 0 =>
    LET rows == SelectSeq(Plain(ParseText(Conf(p.d, 0, 0), t).rows), LAMBDA r : r # <<>>)
        pats == SelectSeq(Patterns(A), LAMBDA x : x # <<>>)
    IN [i \in DOMAIN rows |-> Len(rows[i])] = [i \in DOMAIN pats |-> CellsIn(pats[i])]
(* A quoted text without escapes: balanced quotes leave no Q.                *)
Balanced == p.e = 0 /\ p.q # 0 /\ ~(\E i \in DOMAIN A : A[i] = Qq) =>
              Count(t, Qt) % 2 = 0
(* The score is positive and at most the number of rows.                     *)
ScoreRange == LET f == Fraction(A) IN f.num > 0 /\ f.num <= f.den * Len(Patterns(A))
(* The rounded and the exact score agree.                                    *)
ScoreClose == LET f == Fraction(A)
                  x == (f.num * 1000) \div f.den
                  y == Score(A, 1000) \div 1000
              IN x - y \in -2..2
=============================================================================
