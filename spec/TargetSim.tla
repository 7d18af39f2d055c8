----------------------------- MODULE TargetSim -----------------------------
(* Random histories of TargetMC, to be replayed.                             *)
EXTENDS TargetMC, TLC, Json, Randomization
VARIABLE log
RandomTable == [i \in 1..RandomElement(0..3) |-> [j \in 1..RandomElement({0, 1, 2, 2, 2, 3}) |-> RandomElement(Cells)]]
Regular == LET m == RandomElement(0..3) IN [i \in 1..RandomElement(0..3) |-> [j \in 1..m |-> RandomElement(Cells)]]
SimInit == Init /\ log = <<>>
SimNext == /\ ops < MaxOps
           /\ \E t \in {IF RandomElement(1..3) = 1 THEN RandomTable ELSE Regular}, tr \in {RandomElement(BOOLEAN)},
                 x \in {RandomElement(Dialects)}, enc \in {RandomElement({127, 1114111})} :
                LET r == Request(t, tr, x, enc)
                    o == Outcome(r)
                IN /\ file' = Stored(r, file)
                   /\ last' = IF o.touch THEN [p |-> r.p, rows |-> o.rows] ELSE last
                   /\ log' = Append(log, [t |-> t, tr |-> tr, d |-> x, enc |-> enc, out |-> o.out, touch |-> o.touch, rows |-> o.rows])
           /\ ops' = ops + 1
PrintSim == ops = MaxOps => PrintT(<<"BEH", ToJson(log)>>)
SimSpec == SimInit /\ [][SimNext]_<<vars, log>>
=============================================================================
