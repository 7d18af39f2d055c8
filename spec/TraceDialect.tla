---------------------------- MODULE TraceDialect ---------------------------
(* Validation of recorded uses of dialects: comparison ("order"), exchange   *)
(* ("conv"), use in a reader through any form and with format parameters     *)
(* ("form"), rejection ("reject").                                           *)
EXTENDS Dialect, Json, TLC, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

Order(c) ==
  LET D == DOMAIN c.ds IN
  IF \E a, b \in D : c.eq[a][b] # (c.ds[a] = c.ds[b]) THEN "equality is not equality of the components"
  ELSE IF \E a, b \in D : c.ne[a][b] = c.eq[a][b] THEN "!= is not the negation of =="
  ELSE IF \E a, b \in D : c.eq[a][b] /\ ~c.hash[a][b] THEN "equal dialects hash differently"
  ELSE IF ~OrderLaws(c.ds, c.lt) THEN "the order is not the promised total order"
  ELSE IF \E a, b \in D : c.le[a][b] # (c.lt[a][b] \/ c.eq[a][b]) \/ c.gt[a][b] # c.lt[b][a]
                          \/ c.ge[a][b] # (c.lt[b][a] \/ c.eq[a][b])
       THEN "the comparison operators disagree"
  ELSE IF \E a \in 1..(Len(c.sorted) - 1) : c.lt[c.sorted[a + 1]][c.sorted[a]] THEN "sorting does not sort"
  ELSE "ok"

Conv(c) ==
  IF c.exc THEN "a conversion raises"
  ELSE IF c.json # c.x THEN "the JSON form is lossy"
  ELSE IF c.dict # c.x THEN "the dictionary form is lossy"
  ELSE IF c.x.d # 0 /\ c.csv # c.x THEN "the csv dialect form is lossy"
  ELSE IF \E a \in DOMAIN c.eq : ~c.eq[a] THEN "the converted dialect is not equal"
  ELSE IF ToDict(c.x) # c.keys THEN "the exchange format has other fields"
  ELSE "ok"

Form(c) ==
  LET eff == Override(c.x, c.o)
      r == Run(ConfOf(eff), c.l)
      end == IF r.end = "stop" THEN "stop" ELSE "err"
  IN IF c.exc THEN "a form of the dialect is not accepted"
     ELSE IF \E a \in DOMAIN c.rd : c.rd[a].r # Plain(r.rows) \/ c.rd[a].e # end
          THEN "a form of the dialect means something else"
     ELSE IF c.dia # <<>> /\ c.dia # <<eff>> THEN "the reader reports another dialect"
     ELSE "ok"

Verdict(c) == IF c.op = "order" THEN Order(c)
              ELSE IF c.op = "conv" THEN Conv(c)
              ELSE IF c.op = "form" THEN Form(c)
              ELSE IF c.op = "reject" THEN (IF c.raised THEN "ok" ELSE "an unusable value is accepted")
              ELSE "unknown operation"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
