-------------------------- MODULE TraceDictWriter --------------------------
(* Validation of recorded histories of a DictWriter.  A case is              *)
(*  [p, w, names, rv, raise,                                                 *)
(*   ops : Seq([a : "header" / "rows" / "names" (the field names become ns), *)
(*              ds : Seq(pairs), ns,                                         *)
(*              k : "ok" / "value" (ValueError) / "err" (Error) / "exc"]),   *)
(*   t : the text, b : the rows read back, bd : the dictionaries read back,  *)
(*   hasb : were they read back as dictionaries?]                            *)
EXTENDS DictRW, Json, TLC, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

\* the field names in force at operation j
NamesAt(c, j) ==
  LET S == {k \in 1..j : c.ops[k].a = "names"} IN
  IF S = {} THEN c.names ELSE c.ops[CHOOSE k \in S : \A l \in S : l <= k].ns

Recs(c, j) ==
  LET op == c.ops[j]
      names == NamesAt(c, j)
  IN IF op.a = "names" THEN <<>>
     ELSE IF op.a = "header" THEN << [bad |-> FALSE, r |-> names] >>
     ELSE [k \in DOMAIN op.ds |-> [bad |-> c.raise /\ HasUnknown(names, op.ds[k]),
                                   r |-> RecordOf(names, op.ds[k], c.rv)]]

\* the first dictionary that stops a call, 0 if none
StopAt(c, rs) ==
  LET S == {j \in DOMAIN rs : rs[j].bad \/ ~Representable(c.w, rs[j].r)} IN
  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k

OpVerdict(c, j) ==
  LET op == c.ops[j]
      rs == Recs(c, j)
      k  == StopAt(c, rs)
  IN IF op.k = "exc" THEN "an unexpected exception"
     ELSE IF k = 0 THEN
          (IF op.k = "ok" THEN "ok" ELSE IF op.k = "value" THEN "a dictionary is refused" ELSE "a record that can be represented is refused")
     ELSE IF rs[k].bad THEN (IF op.k = "value" THEN "ok" ELSE "an unknown key is not refused with ValueError")
     ELSE "ok"

OpRows(c, i) ==
  LET op == c.ops[i]
      rs == Recs(c, i)
      k  == StopAt(c, rs)
      n  == IF op.k = "ok" \/ k = 0 THEN Len(rs) ELSE k - 1
  IN [j \in 1..n |-> rs[j].r]

RECURSIVE AllRows(_, _)
AllRows(c, j) == IF j > Len(c.ops) THEN <<>> ELSE OpRows(c, j) \o AllRows(c, j + 1)

DictsOf(c, rows) ==
  [j \in DOMAIN rows |-> ToDictRow([k \in DOMAIN c.names |-> Str(c.names[k])], rows[j], Nil, Nil)]

Verdict(c) ==
  LET bad == {j \in DOMAIN c.ops : OpVerdict(c, j) # "ok"} IN
  IF bad # {} THEN OpVerdict(c, CHOOSE j \in bad : \A k \in bad : j <= k)
  ELSE LET rows == AllRows(c, 1)
           r == ParseText(c.p, c.t)
       IN IF Plain(r.rows) # rows \/ r.end # "stop" THEN "other records are written"
          ELSE IF c.b # rows THEN "the records read back are not those written"
          ELSE IF c.hasb /\ c.bd # DictsOf(c, IF c.first THEN Tail(rows) ELSE rows)
               THEN "the dictionaries read back are not those written"
          ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
