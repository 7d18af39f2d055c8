------------------------------- MODULE Detect ------------------------------
(***************************************************************************)
(* Dialect detection as a whole.  A text is x = [c : code points,          *)
(* k : classes]; cat maps its code points to their Unicode categories;     *)
(* ds is the sequence of candidate delimiters or <<-1>> (any).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Cd == INSTANCE Candidates
Ab == INSTANCE Abstraction
Ps == INSTANCE CsvParser
Nf == INSTANCE NormalForm
Tb == INSTANCE TieBreak

None == Tb!None
AnyDelim == <<-1>>
Range0(s) == {s[i] : i \in DOMAIN s}

(* ---- products of natural numbers as sequences of digits to base 1000,     *)
(* the least first, without leading zeros; -1, 0, 1 as one is less than,     *)
(* equal to, greater than the other.                                         *)
RECURSIVE Digits3(_)
Digits3(n) == IF n = 0 THEN <<>> ELSE <<n % 1000>> \o Digits3(n \div 1000)
RECURSIVE Carried(_, _)
Carried(s, c) == IF s = <<>> THEN Digits3(c) ELSE <<(Head(s) + c) % 1000>> \o Carried(Tail(s), (Head(s) + c) \div 1000)
BigTimes(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carried([k \in 1..(Len(a) + Len(b) - 1) |->
                  FoldLeft(LAMBDA x, i : IF k + 1 - i \in DOMAIN b THEN x + a[i] * b[k + 1 - i] ELSE x, 0, [i \in DOMAIN a |-> i])], 0)
BigProduct(ns) == FoldLeft(LAMBDA x, n : BigTimes(x, Digits3(n)), <<1>>, ns)
CmpBig(a, b) == IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
                ELSE IF a = <<>> THEN 0
                ELSE LET I == {i \in DOMAIN a : a[i] # b[i]} IN
                     IF I = {} THEN 0
                     ELSE LET i == CHOOSE i \in I : \A j \in I : i >= j IN IF a[i] < b[i] THEN -1 ELSE 1

(* ---- the scores of a dialect                                              *)
CellsOf(x, p) ==
  FoldLeft(LAMBDA acc, r : acc \o r, <<>>, Ps!ParseText(Ps!Conf(p.d, p.q, p.e), x.c).rows)
ClassMap(x) == [u \in Range0(x.c) \cup {10} |->
                 IF u \in Range0(x.c) THEN x.k[CHOOSE i \in DOMAIN x.c : x.c[i] = u] ELSE Cd!KWs]
Classified(s, km) == [c |-> s, k |-> [i \in DOMAIN s |-> km[s[i]]]]
(* Which of the cells have a known type.                                     *)
KnownOf(cells, km) == TLCEval([y \in cells |-> Cd!IsKnown(Classified(y.c, km), y.q)])
TypeCount(cs, known) == Len(SelectSeq(cs, LAMBDA y : known[y]))

(* [p : dialect, pat : pattern score as a fraction, kn of tot cells known]    *)
ScoreOf(x, p, known) ==
  LET cs == CellsOf(x, p)
  IN [p |-> p, pat |-> Ab!Fraction(Ab!Abstract(p, x.c)), kn |-> TypeCount(cs, known), tot |-> Len(cs)]
Scores(x, cands) ==
  LET km == ClassMap(x)
      known == KnownOf(UNION {Range0(CellsOf(x, p)) : p \in cands}, km)
  IN {ScoreOf(x, p, known) : p \in cands}

(* The type score is at least 10^-10; the score is the product.              *)
NumOf(s) == IF s.kn = 0 THEN <<s.pat.num>> ELSE <<s.pat.num, s.kn>>
DenOf(s) == IF s.kn = 0 THEN <<s.pat.den, 100000, 100000>> ELSE <<s.pat.den, s.tot>>
CmpQ(s, u) == CmpBig(BigProduct(NumOf(s) \o DenOf(u)), BigProduct(NumOf(u) \o DenOf(s)))
(* A highest one, and all that are equal to it.                              *)
Highest(S) == FoldLeft(LAMBDA m, s : IF CmpQ(s, m) > 0 THEN s ELSE m, CHOOSE s \in S : TRUE, SetToSeq(S))
Best(S) == IF S = {} THEN {} ELSE LET m == Highest(S) IN {s \in S : CmpQ(s, m) = 0}

(* ---- the two methods                                                      *)
DelimiterOrder(ds) == IF ds = AnyDelim THEN Nf!DefaultDelimiters ELSE ds
EscapeSet(x, cat) == {u \in Range0(x.c) : Cd!IsEscape(u, cat)}
NormalForm(x, cat, ds) == Nf!Normal(x.c, DelimiterOrder(ds), EscapeSet(x, cat))
CandidatesOf(x, cat, ds) == Cd!Candidates(x, cat, Range0(ds))
Choose(x, best) == IF Cardinality(best) = 1 THEN CHOOSE p \in best : TRUE ELSE Tb!Winner(x.c, best)
Consistency(x, cat, ds) == Choose(x, {s.p : s \in Best(Scores(x, CandidatesOf(x, cat, ds)))})

Detection(x, cat, ds, method) ==
  LET f == NormalForm(x, cat, ds) IN
  IF method = "normal" \/ (method = "auto" /\ f.k # 0)
  THEN [m |-> "normal", r |-> IF f.k = 0 THEN None ELSE f.p]
  ELSE [m |-> "consistency", r |-> Consistency(x, cat, ds)]

(* ---- what any answer has to satisfy                                       *)
Occurs(x, u) == u = 0 \/ u \in Range0(x.c)
NeverDelimiter(u, cat) == u \in {46, 47, 34, 39, 10, 13} \/ (u # 9 /\ cat[u] \in Cd!BlockedCategories)
FitWhy(x, cat, ds, p) ==
  IF ~Occurs(x, p.d) \/ ~Occurs(x, p.q) \/ ~Occurs(x, p.e) THEN "a character of the dialect does not occur in the text"
  ELSE IF ds # AnyDelim /\ p.d # 0 /\ p.d \notin Range0(ds) THEN "the delimiter is not among the candidates"
  ELSE IF ds = AnyDelim /\ p.d # 0 /\ NeverDelimiter(p.d, cat) THEN "the delimiter can not be one"
  ELSE IF p.q # 0 /\ p.q \notin Cd!QuoteChars THEN "the quote character is not a recognised one"
  ELSE IF p.e # 0 /\ ~(Cd!IsEscape(p.e, cat) /\ \E i \in 1..(Len(x.c) - 1) : x.c[i] = p.e /\ x.c[i + 1] \in {p.d, p.q})
       THEN "the escape character is none"
  ELSE "ok"
=============================================================================
