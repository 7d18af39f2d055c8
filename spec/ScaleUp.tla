------------------------------ MODULE ScaleUp ------------------------------
(* Detection on long texts: when repeating a text, or stretching an ordinary *)
(* character, leaves the answer as it is (ScaleUpMC).                        *)
EXTENDS Detect
Sc == INSTANCE Scale

RowEnd(t) == IF Nf!Contains(t, <<13, 10>>) THEN <<13, 10>> ELSE IF Nf!In2(t, 10) THEN <<10>> ELSE <<13>>
(* Two rows or more, each with its end.                                      *)
FullRows(t) == Len(Nf!FileRows(t)) > 1 /\ Nf!StripEnds(t) # <<>> /\ t = Nf!StripEnds(t) \o RowEnd(Nf!StripEnds(t))
(* Whole records for each of the dialects.                                   *)
WholeFor(t, S) == \A p \in S : Sc!Whole(Ps!Conf(p.d, p.q, p.e), t)
RoundedFor(t, S) == \A p \in S : Sc!Rounded(p, t)
Repeatable(x, S) == FullRows(x.c) /\ WholeFor(x.c, S) /\ RoundedFor(x.c, S)

(* Texts made of blocks [x : classified text, n : number of copies].  The    *)
(* answer is that for one copy of each, with scores that count the copies.   *)
One(bs) == [c |-> FoldLeft(LAMBDA a, b : a \o b.x.c, <<>>, bs), k |-> FoldLeft(LAMBDA a, b : a \o b.x.k, <<>>, bs)]
All(bs) == [c |-> FoldLeft(LAMBDA a, b : a \o Sc!Copies(b.x.c, b.n), <<>>, bs),
            k |-> FoldLeft(LAMBDA a, b : a \o Sc!Copies(b.x.k, b.n), <<>>, bs)]
EndsWith(t, w) == Len(t) >= Len(w) /\ SubSeq(t, Len(t) - Len(w) + 1, Len(t)) = w
Blocks(bs, S) ==
  LET one == One(bs).c IN
  /\ FullRows(one)
  /\ \A i \in DOMAIN bs : LET t == bs[i].x.c IN EndsWith(t, RowEnd(one)) /\ WholeFor(t, S) /\ RoundedFor(t, S)

(* For the normal forms it is enough that every block ends a row: only the   *)
(* set of the rows matters.                                                  *)
Joined(bs) == FoldLeft(LAMBDA a, b : a \o b.t, <<>>, bs)
Spelled(bs) == FoldLeft(LAMBDA a, b : a \o Sc!Copies(b.t, b.n), <<>>, bs)
RowBlocks(bs) ==
  LET one == Joined(bs) IN
  /\ FullRows(one)
  /\ \A i \in DOMAIN bs : EndsWith(bs[i].t, RowEnd(one)) /\ bs[i].t # RowEnd(one) /\ bs[i].n > 0

(* For breaking ties: whole records, as many for each of the dialects.       *)
TieBlocks(bs, S) ==
  \A i \in DOMAIN bs : bs[i].n > 0 /\ WholeFor(bs[i].t, S)
                         /\ \A p, q \in S : Len(Tb!TableOf(p, bs[i].t)) = Len(Tb!TableOf(q, bs[i].t))

RECURSIVE WSum(_, _, _)
WSum(pss, ns, S) ==
  IF S = {} THEN [num |-> 0, den |-> 1]
  ELSE LET y == CHOOSE y \in S : TRUE
           n == FoldLeft(LAMBDA a, i : a + ns[i] * Ab!Count(pss[i], y), 0, [i \in DOMAIN pss |-> i])
           l == Ab!CellsIn(y)
       IN Ab!AddFrac(IF l = 1 THEN Ab!Reduce([num |-> n, den |-> 1000]) ELSE Ab!Reduce([num |-> n * (l - 1), den |-> l]),
                     WSum(pss, ns, S \ {y}))
WFraction(bs, p) ==
  LET pss == [i \in DOMAIN bs |-> Ab!Patterns(Ab!Abstract(p, bs[i].x.c))]
      S == UNION {Range0(pss[i]) : i \in DOMAIN bs}
      f == WSum(pss, [i \in DOMAIN bs |-> bs[i].n], S)
  IN Ab!Reduce([num |-> f.num, den |-> f.den * Cardinality(S)])
WScores(bs, cands) ==
  LET one == One(bs)
      km == ClassMap(one)
      cells == [p \in cands |-> [i \in DOMAIN bs |-> CellsOf(bs[i].x, p)]]
      known == KnownOf(UNION {UNION {Range0(cells[p][i]) : i \in DOMAIN bs} : p \in cands}, km)
      Total(p, F(_)) == FoldLeft(LAMBDA a, i : a + bs[i].n * F(cells[p][i]), 0, [i \in DOMAIN bs |-> i])
  IN {[p |-> p, pat |-> WFraction(bs, p), kn |-> Total(p, LAMBDA cs : TypeCount(cs, known)), tot |-> Total(p, Len)] : p \in cands}
WDetection(bs, cat, ds, method) ==
  LET one == One(bs)
      f == NormalForm(one, cat, ds)
  IN IF method = "normal" \/ (method = "auto" /\ f.k # 0)
     THEN [m |-> "normal", r |-> IF f.k = 0 THEN None ELSE f.p]
     ELSE [m |-> "consistency", r |-> Choose(one, {s.p : s \in Best(WScores(bs, CandidatesOf(one, cat, ds)))})]
=============================================================================
