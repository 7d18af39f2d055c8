----------------------------- MODULE FileReadMC ----------------------------
(* Detection on a prefix, then reading: the file is one stream with a        *)
(* position.  With the rewind, the rows delivered are those of the whole     *)
(* text, for every text and every length of the prefix; without, not.        *)
(* Detection is any function of the prefix: here it looks for a semicolon.   *)
EXTENDS FileRead
CONSTANTS MaxLen, Rewind
Alphabet == {97, 44, 59, 34, 10}
Detected(t) == IF \E i \in DOMAIN t : t[i] = 59 THEN Conf(59, 34, 0)
               ELSE IF \E i \in DOMAIN t : t[i] = 44 THEN Conf(44, 34, 0) ELSE Conf(0, 0, 0)
NoDet(t) == \A i \in DOMAIN t : t[i] = 10
VARIABLES text, num, pos, seen, phase, rows, out
vars == <<text, num, pos, seen, phase, rows, out>>
Init == /\ text \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ num \in 0..(MaxLen + 1)
        /\ pos = 0 /\ seen = <<>> /\ phase = "open" /\ rows = <<>> /\ out = ""
ReadPrefix == /\ phase = "open"
              /\ seen' = Prefix(text, num)
              /\ pos' = Len(Prefix(text, num))
              /\ phase' = "detect"
              /\ UNCHANGED <<text, num, rows, out>>
Detect == /\ phase = "detect"
          /\ IF NoDet(seen) THEN out' = "none" /\ phase' = "done" /\ UNCHANGED pos
             ELSE pos' = (IF Rewind THEN 0 ELSE pos) /\ phase' = "read" /\ UNCHANGED out
          /\ UNCHANGED <<text, num, seen, rows>>
(* one record after the other *)
Deliver == /\ phase = "read"
           /\ LET r == NextRecord(Detected(seen), SplitLines(SubSeq(text, pos + 1, Len(text))), 1)
                  used == SplitLines(SubSeq(text, pos + 1, Len(text)))
                  Chars == FoldLeft(LAMBDA a, l : a + Len(l), 0, SubSeq(used, 1, r.n - 1))
              IN IF r.o.k = "row"
                 THEN rows' = Append(rows, Plain(<<r.o.row>>)[1]) /\ pos' = pos + Chars /\ UNCHANGED <<phase, out>>
                 ELSE phase' = "done" /\ out' = (IF r.o.k = "stop" THEN "ok" ELSE "error") /\ UNCHANGED <<rows, pos>>
           /\ UNCHANGED <<text, num, seen>>
Next == ReadPrefix \/ Detect \/ Deliver
Spec == Init /\ [][Next]_vars
SameTable == phase = "done" =>
  LET q == TableOf(text, NoDet(Prefix(text, num)), Detected(Prefix(text, num))) IN out = q.out /\ rows = q.rows
=============================================================================
