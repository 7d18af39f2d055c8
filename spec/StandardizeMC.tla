--------------------------- MODULE StandardizeMC ----------------------------
(* The command as a transition system: one file after another, detection     *)
(* finding any of a few dialects, or none.                                   *)
EXTENDS Standardize, FiniteSets, TLC
CONSTANTS MaxLen, Files, Alphabet
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Dialects == <<Conf(44, 34, 0), Conf(59, 0, 0), Conf(0, 0, 0), Conf(59, 34, 0)>>
VARIABLES orig, file, mode, transpose, todo, code, out, rows
vars == <<orig, file, mode, transpose, todo, code, out, rows>>
Init == /\ orig \in [1..Files -> Texts]
        /\ file = orig /\ mode \in {"stdout", "inplace"} /\ transpose \in BOOLEAN
        /\ todo = 1 /\ code = 0 /\ out = <<>> /\ rows = [i \in 1..Files |-> <<>>]
Cmd(s) == [mode |-> mode, transpose |-> transpose, steps |-> <<s>>, nout |-> 0, nenc |-> 0]
NextFile ==
  /\ todo <= Files /\ code # 1
  /\ \E found \in 0..Len(Dialects) :
       LET s == [x |-> file[todo], undec |-> FALSE, nodet |-> found = 0, enc |-> 1114111, re |-> TRUE,
                 p |-> IF found = 0 THEN Conf(0, 0, 0) ELSE Dialects[found]]
           r == StepOf(Cmd(s), s)
       IN IF r.k # "done" THEN /\ code' = 1 /\ UNCHANGED <<file, out, rows>>
          ELSE /\ file' = IF mode = "inplace" THEN [file EXCEPT ![todo] = r.text] ELSE file
               /\ out' = IF mode = "stdout" THEN out \o r.text ELSE out
               /\ code' = IF Changed(Cmd(s), s, r) THEN 2 ELSE code
               /\ rows' = [rows EXCEPT ![todo] = <<r.rows>>]
  /\ todo' = todo + 1
  /\ UNCHANGED <<orig, mode, transpose>>
Spec == Init /\ [][NextFile]_vars
(* Untouched, or the whole table in standard form.                           *)
Preserved == \A i \in 1..Files :
  \/ file[i] = orig[i]
  \/ mode = "inplace" /\ LET b == ParseText(StandardConf, file[i]) IN b.end = "stop" /\ <<Plain(b.rows)>> = rows[i]
TwoIffChanged == code # 1 => ((code = 2) <=> (file # orig))
OnlyInPlace == mode = "stdout" => file = orig
NotYet == \A i \in 1..Files : i >= todo => file[i] = orig[i]
(* Standardizing what is standard changes nothing.                           *)
Again == \A i \in 1..Files : mode = "inplace" /\ rows[i] # <<>> /\ ~transpose =>
  TableText(Standard, Plain(ParseText(StandardConf, file[i]).rows)) = file[i]
(* No cell is lost by transposing.                                           *)
TransposeTwice == \A i \in 1..Files : transpose /\ rows[i] # <<>> /\ rows[i] # <<<<>>>> =>
  Padded(Padded(rows[i][1])) = rows[i][1]
=============================================================================
