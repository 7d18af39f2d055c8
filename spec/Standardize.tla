---------------------------- MODULE Standardize ----------------------------
(***************************************************************************)
(* The standardize command.                                                *)
(*                                                                         *)
(* A step is one file of the command line: [x : its text, undec : it cannot *)
(* be decoded, nodet : no dialect is found, p : the dialect that is found,  *)
(* enc : how large a code point of the target encoding may be, re : the     *)
(* same text has the same bytes in the target encoding].                    *)
(* A command is [mode : "stdout", "out" or "inplace", transpose, steps,     *)
(* nout, nenc : how many outputs and encodings are given].                  *)
(***************************************************************************)
EXTENDS CsvWriter

Standard == [d |-> 44, q |-> 34, e |-> 0, nl |-> <<CR, LF>>, all |-> FALSE]
StandardConf == Conf(44, 34, 0)

Width(rows) == LET F(m, r) == IF Len(r) > m THEN Len(r) ELSE m IN FoldLeft(F, 0, rows)
Padded(rows) == [j \in 1..Width(rows) |->
                  [i \in DOMAIN rows |-> IF j <= Len(rows[i]) THEN rows[i][j] ELSE <<>>]]
Shaped(transpose, rows) == IF transpose THEN Padded(rows) ELSE rows

Fits(enc, text) == \A i \in DOMAIN text : text[i] <= enc

(* What becomes of one file: [k : "none", "fails" or "done", rows, text].    *)
StepOf(c, s) ==
  IF s.undec THEN [k |-> "fails", rows |-> <<>>, text |-> <<>>]
  ELSE IF s.nodet THEN [k |-> "none", rows |-> <<>>, text |-> <<>>]
  ELSE LET b    == ParseText(s.p, s.x)
           rows == Shaped(c.transpose, Plain(b.rows))
           text == TableText(Standard, rows)
       IN IF b.end # "stop" \/ (c.mode # "stdout" /\ ~Fits(s.enc, text))
          THEN [k |-> "fails", rows |-> <<>>, text |-> <<>>]
          ELSE [k |-> "done", rows |-> rows, text |-> text]

BadOptions(c) ==
  \/ c.mode = "inplace" /\ c.nout > 0
  \/ c.mode # "inplace" /\ c.nout > 0 /\ c.nout # Len(c.steps)
  \/ c.nenc > 1 /\ c.nenc # Len(c.steps)

Changed(c, s, r) == c.mode = "inplace" /\ r.k = "done" /\ (r.text # s.x \/ ~s.re)

(* The first step that is not done, or 0.                                    *)
Results(c) == [i \in DOMAIN c.steps |-> StepOf(c, c.steps[i])]
FirstBad(rs) == LET bad == {i \in DOMAIN rs : rs[i].k # "done"}
                IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
Processed(rs, i) == FirstBad(rs) = 0 \/ i < FirstBad(rs)

ExitCode(c, rs) ==
  IF BadOptions(c) THEN "1"
  ELSE LET f == FirstBad(rs)
       IN IF f # 0 THEN (IF rs[f].k = "none" THEN "1" ELSE "exc")
          ELSE IF \E i \in DOMAIN rs : Changed(c, c.steps[i], rs[i]) THEN "2" ELSE "0"

RECURSIVE AllTexts(_, _)
AllTexts(rs, i) == IF i > Len(rs) \/ ~Processed(rs, i) THEN <<>> ELSE rs[i].text \o AllTexts(rs, i + 1)
Stdout(c, rs) == IF c.mode = "stdout" /\ ~BadOptions(c) THEN AllTexts(rs, 1) ELSE <<>>
=============================================================================
