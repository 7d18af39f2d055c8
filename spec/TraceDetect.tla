----------------------------- MODULE TraceDetect ---------------------------
(* Validation of recorded detections.  A case is [op, x : text, cats,        *)
(* ds : delimiters or <<-1>>, method, none, r : the answer, m : the method   *)
(* recorded or "", end : how reading with the answer ended, exc,             *)
(* rank : for op "select", the dialects with the rank of their score as the  *)
(* code computed it, used only where different dialects have exactly the     *)
(* same score (rounding may separate them); or <<>>].                        *)
(* If bs is not empty, x consists of those blocks [x, n], of which the text  *)
(* had n copies each (ScaleUp).                                              *)
(* op "fit": the answer fits; op "select": it is the one of the method.      *)
EXTENDS ScaleUp, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

Cat(ps) == LET ix == [u \in {ps[i][1] : i \in DOMAIN ps} |-> (CHOOSE i \in DOMAIN ps : ps[i][1] = u)]
           IN [u \in DOMAIN ix |-> ps[ix[u]][2]]

Fit(c) ==
  LET cat == Cat(c.cats)
      w == IF c.none THEN "ok" ELSE FitWhy(c.x, cat, c.ds, c.r)
  IN IF w # "ok" THEN w
     ELSE IF ~c.none /\ c.end # "stop" THEN "the text cannot be read with the answer"
     ELSE "ok"

RankOf(c, p) == LET I == {i \in DOMAIN c.rank : c.rank[i].p = p}
                IN IF I = {} THEN 0 ELSE c.rank[CHOOSE i \in I : TRUE].n
Refine(c, best) == {p \in best : \A q \in best : RankOf(c, p) >= RankOf(c, q)}

Select(c) ==
  LET cat == Cat(c.cats)
      f == NormalForm(c.x, cat, c.ds)
      nf == c.method = "normal" \/ (c.method = "auto" /\ f.k # 0)
      m == IF nf THEN "normal" ELSE "consistency"
      r == IF c.none THEN None ELSE c.r
  IN IF c.m # "" /\ c.m # m THEN "the method recorded is not the one that gave the answer"
     ELSE IF nf THEN IF r = (IF f.k = 0 THEN None ELSE f.p) THEN "ok" ELSE "not the normal form of the text"
     ELSE LET cands == CandidatesOf(c.x, cat, c.ds)
              best == {s.p : s \in Best(IF c.bs = <<>> THEN Scores(c.x, cands) ELSE WScores(c.bs, cands))}
              fine == Refine(c, best)
          IN IF r = Choose(c.x, fine) THEN "ok"
             ELSE IF r # None /\ r \notin best THEN "the answer does not have the highest score"
             ELSE "not the answer of the tie-breaking rules"

Verdict(c) == IF c.exc THEN "an exception is raised"
              ELSE LET w == Fit(c) IN IF w # "ok" \/ c.op = "fit" THEN w
                   ELSE IF c.bs # <<>> /\ ~Blocks(c.bs, CandidatesOf(c.x, Cat(c.cats), c.ds)) THEN "ok" ELSE Select(c)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
