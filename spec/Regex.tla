------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions over classified text.  A text is a record           *)
(* x = [c : code points, k : character classes], the class of a character  *)
(* being one of the numbers below (they exclude each other).  A position p *)
(* is the number of characters before it.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

KL  == 1   \* letter (L*)
KD  == 2   \* decimal digit (Nd)
KN  == 3   \* other number (Nl, No)
KSc == 4   \* currency symbol
KWs == 5   \* white space
KCs == 6   \* white space only for stripping (the separators 1C-1F)
KO  == 7   \* anything else

In(S, K)      == [o |-> "in", s |-> S, k |-> K]
Ch(c)         == In({c}, {})
Digit         == In({}, {KD})
Sq(rs)        == [o |-> "seq", r |-> rs]
Alt(rs)       == [o |-> "alt", r |-> rs]
Rep(r, m, n)  == [o |-> "rep", r |-> r, m |-> m, n |-> n]     \* n = -1: no maximum
Opt(r)        == Rep(r, 0, 1)
Plus(r)       == Rep(r, 1, -1)
Star(r)       == Rep(r, 0, -1)
Ahead(r)      == [o |-> "ahead", r |-> r]
NotAhead(r)   == [o |-> "notahead", r |-> r]
Behind(S, K)  == [o |-> "behind", s |-> S, k |-> K]
Str(cs)       == Sq([i \in DOMAIN cs |-> Ch(cs[i])])

Matches(a, x, p) == p < Len(x.c) /\ (x.c[p + 1] \in a.s \/ x.k[p + 1] \in a.k)

(* The positions at which a match of r that begins at a position of S ends. *)
RECURSIVE Ends(_, _, _), SeqEnds(_, _, _, _), RepEnds(_, _, _, _, _)
Ends(r, x, S) ==
  IF S = {} THEN {}
  ELSE CASE r.o = "in"       -> {p + 1 : p \in {p \in S : Matches(r, x, p)}}
         [] r.o = "seq"      -> SeqEnds(r.r, x, S, 1)
         [] r.o = "alt"      -> UNION {Ends(r.r[i], x, S) : i \in DOMAIN r.r}
         [] r.o = "rep"      -> RepEnds(r, x, S, 0, {})
         [] r.o = "ahead"    -> {p \in S : Ends(r.r, x, {p}) # {}}
         [] r.o = "notahead" -> {p \in S : Ends(r.r, x, {p}) = {}}
         [] r.o = "behind"   -> {p \in S : p > 0 /\ Matches(r, x, p - 1)}
SeqEnds(rs, x, S, i) ==
  IF i > Len(rs) \/ S = {} THEN S ELSE SeqEnds(rs, x, Ends(rs[i], x, S), i + 1)
(* After i repetitions at the positions S; `acc` are positions already found *)
RepEnds(r, x, S, i, acc) ==
  LET a == IF i >= r.m THEN acc \cup S ELSE acc
      S2 == IF i >= r.m THEN S \ acc ELSE S      \* nothing new can come of the others
  IN IF S2 = {} \/ (r.n >= 0 /\ i = r.n) THEN a
     ELSE RepEnds(r, x, Ends(r.r, x, S2), i + 1, a)

FullMatch(r, x) == Len(x.c) \in Ends(r, x, {0})

(* The ends of the matches from p in the order in which a backtracking       *)
(* matcher (greedy, alternatives from left to right) finds them.             *)
RECURSIVE Uniq(_, _)
Uniq(s, i) == IF i > Len(s) THEN <<>>
              ELSE LET rest == Uniq(s, i + 1)
                   IN IF \E j \in 1..(i - 1) : s[j] = s[i] THEN rest ELSE <<s[i]>> \o rest

RECURSIVE Order(_, _, _), OrderSeq(_, _, _, _), OrderAlt(_, _, _, _), OrderRep(_, _, _, _), Each(_, _, _, _)
Order(r, x, p) ==
  CASE r.o = "in"       -> IF Matches(r, x, p) THEN <<p + 1>> ELSE <<>>
    [] r.o = "seq"      -> OrderSeq(r.r, x, p, 1)
    [] r.o = "alt"      -> Uniq(OrderAlt(r.r, x, p, 1), 1)
    [] r.o = "rep"      -> Uniq(OrderRep(r, x, p, 0), 1)
    [] r.o = "ahead"    -> IF Ends(r.r, x, {p}) # {} THEN <<p>> ELSE <<>>
    [] r.o = "notahead" -> IF Ends(r.r, x, {p}) = {} THEN <<p>> ELSE <<>>
    [] r.o = "behind"   -> IF p > 0 /\ Matches(r, x, p - 1) THEN <<p>> ELSE <<>>
Each(rs, x, ps, i) ==     \* the rest rs, from i, at each of the positions ps
  IF ps = <<>> THEN <<>> ELSE OrderSeq(rs, x, ps[1], i) \o Each(rs, x, Tail(ps), i)
OrderSeq(rs, x, p, i) ==
  IF i > Len(rs) THEN <<p>> ELSE Uniq(Each(rs, x, Order(rs[i], x, p), i + 1), 1)
OrderAlt(rs, x, p, i) ==
  IF i > Len(rs) THEN <<>> ELSE Order(rs[i], x, p) \o OrderAlt(rs, x, p, i + 1)
OrderRep(r, x, p, i) ==
  LET more == IF r.n >= 0 /\ i = r.n THEN <<>>
              ELSE LET qs == SelectSeq(Order(r.r, x, p), LAMBDA q : q # p)
                       RECURSIVE All(_)
                       All(s) == IF s = <<>> THEN <<>> ELSE OrderRep(r, x, s[1], i + 1) \o All(Tail(s))
                   IN All(qs)
  IN IF i >= r.m THEN Append(more, p) ELSE more

(* The text with every leftmost match of r replaced by the character u.      *)
RECURSIVE Sub(_, _, _, _)
Sub(r, x, u, p) ==
  IF p >= Len(x.c) THEN <<>>
  ELSE LET es == Order(r, x, p)
       IN IF es # <<>> /\ es[1] > p THEN <<u>> \o Sub(r, x, u, es[1])
          ELSE <<x.c[p + 1]>> \o Sub(r, x, u, p + 1)
=============================================================================
