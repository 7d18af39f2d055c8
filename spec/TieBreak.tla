------------------------------ MODULE TieBreak -----------------------------
(***************************************************************************)
(* Choosing between dialects [d, q, e] with the same score for a text t.   *)
(* The tied dialects are a set; None means that the tie stays.             *)
(***************************************************************************)
EXTENDS CsvParser, FiniteSets

None == [d |-> -1, q |-> -1, e |-> -1]
Comma == 44
Space == 32
Hyphen == 45

TableOf(p, t) == Plain(ParseText(Conf(p.d, p.q, p.e), t).rows)
SameShape(X, Y) == Len(X) = Len(Y) /\ \A i \in DOMAIN X : Len(X[i]) = Len(Y[i])

(* The cells that differ, in order, as read in X.                            *)
Differing(X, Y) ==
  LET RowDiff(i) == SelectSeq([j \in DOMAIN X[i] |-> <<X[i][j], Y[i][j]>>], LAMBDA c : c[1] # c[2])
  IN FoldLeft(LAMBDA acc, i : acc \o RowDiff(i), <<>>, [i \in DOMAIN X |-> i])
Pairs(c, e, q) == {i \in 1..(Len(c) - 1) : c[i] = e /\ c[i + 1] = q}

(* Two dialects that differ only in the quote character, one without: the    *)
(* one without, unless the quotes have an effect.                            *)
ByQuote(t, A, B) ==
  LET no == IF A.q = 0 THEN A ELSE B
      yes == IF A.q = 0 THEN B ELSE A
  IN IF A.q # 0 /\ B.q # 0 THEN None
     ELSE IF TableOf(no, t) = TableOf(yes, t) THEN no ELSE yes
ByDelimiter(A, B) ==
  IF {A.d, B.d} = {Comma, Space} THEN IF A.d = Comma THEN A ELSE B
  ELSE IF A.d = Hyphen THEN B
  ELSE IF B.d = Hyphen THEN A
  ELSE None
(* Differing only in the escape character: the escape is functional if it    *)
(* precedes quotes an even number (not zero) of times in the first cell on   *)
(* which it has an effect.                                                   *)
ByEscape(t, A, B) ==
  LET no == IF A.e = 0 THEN A ELSE B
      yes == IF A.e = 0 THEN B ELSE A
      X == TableOf(no, t)
      Y == TableOf(yes, t)
  IN IF (A.e # 0 /\ B.e # 0) \/ ~SameShape(X, Y) \/ X = Y THEN None
     ELSE LET n == Cardinality(Pairs(Differing(X, Y)[1][1], yes.e, yes.q))
          IN IF n > 0 /\ n % 2 = 0 THEN yes ELSE no
(* Differing in quote and escape, one having neither: the other, if all its  *)
(* effects are on cells with an escaped quote.                               *)
ByBoth(t, A, B) ==
  LET no == IF A.q = 0 /\ A.e = 0 THEN A ELSE B
      yes == IF A.q = 0 /\ A.e = 0 THEN B ELSE A
      X == TableOf(no, t)
      Y == TableOf(yes, t)
  IN IF ~(no.q = 0 /\ no.e = 0) \/ ~SameShape(X, Y) THEN None
     ELSE LET ds == Differing(X, Y)
          IN IF \A i \in DOMAIN ds : Pairs(ds[i][1], yes.e, yes.q) # {} THEN yes ELSE None

Two(t, A, B) ==
  IF A.d = B.d /\ A.e = B.e THEN ByQuote(t, A, B)
  ELSE IF A.q = B.q /\ A.e = B.e THEN ByDelimiter(A, B)
  ELSE IF A.d = B.d /\ A.q = B.q THEN ByEscape(t, A, B)
  ELSE IF A.d = B.d THEN ByBoth(t, A, B)
  ELSE None

SameDelimiter(S) == \A a, b \in S : a.d = b.d
SameEscape(S) == \A a, b \in S : a.e = b.e
Before(x, y) == IF x.q # y.q THEN x.q < y.q ELSE x.e < y.e      \* among equal delimiters
Neighbours(S) == {<<a, b>> \in S \X S : Before(a, b) /\ ~\E c \in S : Before(a, c) /\ Before(c, b)}

(* Dialects that give the same table as a neighbour are replaced by the       *)
(* winner of each such pair.                                                  *)
Reduced(t, S) ==
  LET eq == {ab \in Neighbours(S) : TableOf(ab[1], t) = TableOf(ab[2], t)}
      won == {Two(t, ab[1], ab[2]) : ab \in eq} \ {None}
  IN won \cup {a \in S : \A ab \in eq : a # ab[1] /\ a # ab[2]}

Only(S) == IF Cardinality(S) = 1 THEN CHOOSE a \in S : TRUE ELSE None
TwoOf(t, S) == LET a == CHOOSE a \in S : TRUE
                   b == CHOOSE b \in S : b # a
               IN Two(t, a, b)
Three(t, S) ==
  IF ~SameDelimiter(S) THEN None
  ELSE IF SameEscape(S)
  THEN LET bare == {a \in S : a.q = 0} IN
       IF bare = {} \/ \E a, b \in S : Len(TableOf(a, t)) # Len(TableOf(b, t)) THEN None
       ELSE LET X == TableOf(CHOOSE a \in bare : TRUE, t)
                rest == {a \in S : TableOf(a, t) # X}
            IN IF Cardinality(rest) <= 1 THEN Only(Reduced(t, S)) ELSE None
  ELSE LET quoting == {a \in S : a.q # 0}
       IN IF Cardinality(quoting) = 2 THEN TwoOf(t, quoting) ELSE None
Four(t, S) ==
  IF ~SameDelimiter(S) THEN None
  ELSE LET R == Reduced(t, S) IN
       CASE Cardinality(R) = 1 -> Only(R)
         [] Cardinality(R) = 2 -> TwoOf(t, R)
         [] Cardinality(R) = 3 -> Three(t, R)
         [] OTHER -> None

Winner(t, S) ==
  CASE Cardinality(S) = 2 -> TwoOf(t, S)
    [] Cardinality(S) = 3 -> Three(t, S)
    [] Cardinality(S) = 4 -> Four(t, S)
    [] OTHER -> None
=============================================================================
