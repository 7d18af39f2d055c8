----------------------------- MODULE TraceHeader ---------------------------
(* Validation of recorded header detections.  A case is [x : classified      *)
(* text with all characters that occur, max, s : the same sample with        *)
(* several line ends: [t : code points, none, r : the dialect detected for   *)
(* it, out : "yes", "no", "none" (NoDetectionResult), "other error"],        *)
(* w : [u, k], the character u stands for k copies of itself; it is a letter *)
(* that occurs in no number, or a digit, and so what cells can be read as    *)
(* stays the same (HeaderWideMC), more : the samples continue after t, which  *)
(* is only judged if the rows that take part have ended before (the reader    *)
(* never takes back a record, and HeaderMC!Bounded)].                         *)
EXTENDS Header, Json, TLC, IOUtils
Ps == INSTANCE CsvParser
Cases == ndJsonDeserialize(IOEnv.TRACE)

Classify(km, row, w) ==
  [j \in DOMAIN row |-> [c |-> row[j].c, k |-> [i \in DOMAIN row[j].c |-> km[row[j].c[i]]],
                         w |-> Len(row[j].c) + (w.k - 1) * Cardinality({i \in DOMAIN row[j].c : row[j].c[i] = w.u})]]
RowsOf(km, v, w) ==
  LET rows == Ps!ParseText(Ps!Conf(v.r.d, v.r.q, v.r.e), v.t).rows
  IN [i \in DOMAIN rows |-> Classify(km, rows[i], w)]
Expected(c, km, v) == IF v.none THEN "none" ELSE IF HasHeader(RowsOf(km, v, c.w), c.max) THEN "yes" ELSE "no"
LineEndInCell(c, km, v) == ~v.none /\ \E r \in Range1(RowsOf(km, v, c.w)) : \E y \in Range1(r) : {10, 13} \cap Range1(y.c) # {}

Verdict(c) ==
  LET km == [u \in Range1(c.x.c) \cup {10, 13} |->
               IF u \in {10, 13} THEN KWs ELSE c.x.k[CHOOSE i \in DOMAIN c.x.c : c.x.c[i] = u]]
      bad == {i \in DOMAIN c.s : c.s[i].out # Expected(c, km, c.s[i])}
  IN IF c.more /\ \E i \in DOMAIN c.s : ~c.s[i].none /\ Len(RowsOf(km, c.s[i], c.w)) <= c.max + 2 THEN "ok"
     ELSE IF c.w.k > 1 /\ (~HSteady(c.w.u) \/ \E i \in DOMAIN c.s : c.w.u \in {c.s[i].r.d, c.s[i].r.q, c.s[i].r.e}) THEN "ok"
     ELSE IF \E i \in DOMAIN c.s : c.s[i].out = "other error" THEN "an exception is raised"
     ELSE IF bad # {} THEN "not the outcome of the vote"
     ELSE IF /\ \E i, j \in DOMAIN c.s : c.s[i].out # c.s[j].out
             /\ ~\E i \in DOMAIN c.s : LineEndInCell(c, km, c.s[i])
          THEN "the line ends make a difference"
     ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
