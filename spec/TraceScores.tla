----------------------------- MODULE TraceScores ---------------------------
(* Validation of recorded scores.  A case is [x : text, s : for every        *)
(* dialect [p, P, T, Q : scores (millionths), t10 : type score in 10^-10     *)
(* units if it is below 10^-6, else -1, ts : type scores v given a minimum m, *)
(* both in millionths, n : rank of Q among the dialects],                    *)
(* n : the text scored was n copies of x, and P and Q are one n-th (ScaleUp), *)
(* best : the dialects returned as best, exc, order : dialects as supplied]. *)
EXTENDS ScaleUp, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

(* a/b in millionths, without overflow for b < 10^8.                         *)
RECURSIVE Digits(_, _, _, _)
Digits(r, b, k, acc) == IF k = 0 THEN acc ELSE Digits((r * 10) % b, b, k - 1, acc * 10 + (r * 10) \div b)
Mil(a, b) == Digits(a % b, b, 6, a \div b)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol

(* The parts the pattern score is a function of.                             *)
Terms(x, p) == LET ps == Ab!Patterns(Ab!Abstract(p, x.c)) IN ps

OneWhy(x, s, w) ==
  LET a == Ab!Abstract(s.p, x.c)
      cs == CellsOf(x, s.p)
      k == TypeCount(cs, w)
      n == Len(cs)
      tol == Ab!ScoreTolerance(a)
  IN IF ~Near(Ab!Score(a, 1000), s.P, tol) THEN "the pattern score is not the defined one"
     (* the type score with minimum y.m, by any of the functions               *)
     ELSE IF \E y \in {s.ts[i] : i \in DOMAIN s.ts} :
               ~Near(y.v, IF n = 0 THEN y.m ELSE LET r == Mil(k, n) IN IF r < y.m THEN y.m ELSE r, 2)
          THEN "the type score is not the ratio or its minimum"
     ELSE IF k = 0 THEN IF s.t10 = 1 /\ s.Q <= 1 THEN "ok" ELSE "the type score is below its minimum"
     ELSE IF ~Near(Mil(k, n), s.T, 2) THEN "the type score is not the ratio of the known cells"
     (* Q = P * k/n                                                           *)
     ELSE IF ~Near(s.Q, (s.P \div n) * k + ((s.P % n) * k) \div n, tol + 3)
          THEN "the consistency score is not the product"
     ELSE "ok"

Verdict(c) ==
  IF c.exc THEN "an exception is raised"
  ELSE LET D == {c.s[i].p : i \in DOMAIN c.s}
           km == ClassMap(c.x)
           w == KnownOf(UNION {Range0(CellsOf(c.x, p)) : p \in D}, km)
           v == [i \in DOMAIN c.s |-> IF c.n = 1 \/ (WholeFor(c.x.c, {c.s[i].p}) /\ RoundedFor(c.x.c, {c.s[i].p})) THEN OneWhy(c.x, c.s[i], w) ELSE "ok"]
           bad == {i \in DOMAIN c.s : v[i] # "ok"}
           best == {c.best[i] : i \in DOMAIN c.best}
           top == {c.s[i].p : i \in {i \in DOMAIN c.s : \A j \in DOMAIN c.s : c.s[i].n >= c.s[j].n}}
       IN IF D # {c.order[i] : i \in DOMAIN c.order} THEN "not every dialect has a score"
          ELSE IF bad # {} THEN v[CHOOSE i \in bad : TRUE]
          ELSE IF \E i, j \in DOMAIN c.s :
                    /\ c.s[i].n # c.s[j].n
                    /\ Terms(c.x, c.s[i].p) = Terms(c.x, c.s[j].p)
                    /\ c.n = 1 \/ Repeatable(c.x, {c.s[i].p, c.s[j].p})
                    /\ LET a == CellsOf(c.x, c.s[i].p)
                           b == CellsOf(c.x, c.s[j].p)
                       IN Len(a) = Len(b) /\ TypeCount(a, w) = TypeCount(b, w)
               THEN "equal scores are ranked differently"
          ELSE IF best # top \/ Len(c.best) # Cardinality(best) THEN "the best dialects are not those with the highest score"
          ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
