---------------------------- MODULE Abstraction ----------------------------
(***************************************************************************)
(* The row abstraction of a text under a dialect [d, q, e] and the pattern *)
(* score.  An abstraction is a sequence over C (cell), D (delimiter),      *)
(* Q (quote), R (row end).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Cc == 67
Dd == 68
Qq == 81
Rr == 82

LastOf(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
PushNew(s, x) == IF LastOf(s) = x THEN s ELSE Append(s, x)

(* The abstraction of the characters, one after the other: an escape        *)
(* character takes the special meaning from the character that follows it.  *)
BaseStep(p, a, u) ==
  IF u = 10 \/ u = 13 THEN [a EXCEPT !.s = PushNew(@, Rr)]
  ELSE IF u = p.d THEN
       IF a.esc THEN [s |-> Append(a.s, Cc), esc |-> FALSE] ELSE [a EXCEPT !.s = Append(@, Dd)]
  ELSE IF u = p.q THEN
       IF a.esc THEN [s |-> Append(a.s, Cc), esc |-> FALSE] ELSE [a EXCEPT !.s = Append(@, Qq)]
  ELSE IF u = p.e THEN
       IF a.esc THEN [s |-> PushNew(a.s, Cc), esc |-> FALSE] ELSE [a EXCEPT !.esc = TRUE]
  ELSE [s |-> PushNew(a.s, Cc), esc |-> FALSE]

Base(p, t) == FoldLeft(LAMBDA a, u : BaseStep(p, a, u), [s |-> <<>>, esc |-> FALSE], t).s

(* Quoted regions, from an opening quote to the first quote that is not     *)
(* doubled, become cells; a region that is never closed stays as it is.     *)
(* The position of the quote that closes the region opened before i, or 0.  *)
RECURSIVE CloseAt(_, _)
CloseAt(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] # Qq THEN CloseAt(s, i + 1)
  ELSE IF i < Len(s) /\ s[i+1] = Qq THEN CloseAt(s, i + 2)
  ELSE i

RECURSIVE MergeFrom(_, _)
MergeFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # Qq THEN <<s[i]>> \o MergeFrom(s, i + 1)
  ELSE LET c == CloseAt(s, i + 1) IN
       IF c = 0 THEN SubSeq(s, i, Len(s))
       ELSE [k \in 1..(c - i + 1) |-> Cc] \o MergeFrom(s, c + 1)
Merge(s) == MergeFrom(s, 1)

(* Empty cells become visible: next to a delimiter there is always a cell;  *)
(* consecutive cells are one.                                               *)
GapBefore(s, i) ==
  \/ s[i] = Dd /\ (i = 1 \/ s[i-1] \in {Dd, Rr})
  \/ s[i] = Rr /\ i > 1 /\ s[i-1] = Dd
Fill(s) ==
  LET F(acc, i) == IF s[i] = Cc /\ LastOf(acc) = Cc THEN acc
                   ELSE IF GapBefore(s, i) THEN acc \o <<Cc, s[i]>> ELSE Append(acc, s[i])
      r == FoldLeft(F, <<>>, [i \in 1..Len(s) |-> i])
  IN IF LastOf(r) = Dd THEN Append(r, Cc) ELSE r

RECURSIVE Strip(_)
Strip(s) == IF LastOf(s) = Rr THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

Abstract(p, t) == Strip(Fill(Merge(Base(p, t))))

(* Row patterns: the parts between row ends.                                *)
RECURSIVE SplitOn(_, _, _, _)
SplitOn(s, x, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = x THEN <<cur>> \o SplitOn(s, x, i + 1, <<>>)
  ELSE SplitOn(s, x, i + 1, Append(cur, s[i]))

Patterns(a) == SplitOn(a, Rr, 1, <<>>)
CellsIn(pat) == 1 + Cardinality({i \in DOMAIN pat : pat[i] = Dd})

Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})

(* The score, in millionths (eps too): the mean over the distinct patterns  *)
(* of  N * max(eps, L - 1) / L.  The result is exact up to one millionth    *)
(* per row and pattern.                                                     *)
Million == 1000000
Term(n, l, eps) == IF l = 1 THEN n * (IF eps > 0 THEN eps ELSE 0)
                   ELSE n * (((l - 1) * Million) \div l)
RECURSIVE SumTerms(_, _, _)
SumTerms(ps, S, eps) ==
  IF S = {} THEN 0
  ELSE LET x == CHOOSE x \in S : TRUE IN Term(Count(ps, x), CellsIn(x), eps) + SumTerms(ps, S \ {x}, eps)

Score(a, eps) == LET ps == Patterns(a)
                     S  == {ps[i] : i \in DOMAIN ps}
                 IN SumTerms(ps, S, eps) \div Cardinality(S)
ScoreTolerance(a) == Len(Patterns(a)) + 2

(* The score as an exact fraction num/den (for small texts).                *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(f) == LET g == Gcd(f.num, f.den) IN [num |-> f.num \div g, den |-> f.den \div g]
AddFrac(f, g) == Reduce([num |-> f.num * g.den + g.num * f.den, den |-> f.den * g.den])
RECURSIVE SumFrac(_, _)
SumFrac(ps, S) ==
  IF S = {} THEN [num |-> 0, den |-> 1]
  ELSE LET x == CHOOSE x \in S : TRUE
           n == Count(ps, x)
           l == CellsIn(x)
       IN AddFrac(IF l = 1 THEN Reduce([num |-> n, den |-> 1000]) ELSE Reduce([num |-> n * (l - 1), den |-> l]), SumFrac(ps, S \ {x}))
Fraction(a) == LET ps == Patterns(a)
                   S  == {ps[i] : i \in DOMAIN ps}
                   f  == SumFrac(ps, S)
               IN Reduce([num |-> f.num, den |-> f.den * Cardinality(S)])
=============================================================================
