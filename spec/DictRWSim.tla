------------------------------ MODULE DictRWSim ----------------------------
EXTENDS DictRWMC
SimGrow == /\ log = <<>> /\ Len(lines) < MaxLines
           /\ \E r \in {RandomElement(Rows)} :
                 lines' = Append(lines, r) /\ c' = [c EXCEPT !.l = Append(@, LineOf(r))]
           /\ UNCHANGED <<s, given, log>>
SimNext == SimGrow \/ (Len(lines) >= 2 /\ (Do("ask") \/ Do("next")))
SimSpec == Init /\ [][SimNext]_vars
Done == Len(lines) >= 2 /\ (Len(log) = MaxOps \/ (log # <<>> /\ log[Len(log)].o.k = "stop"))
PrintSim == Done => PrintT(<<"BEH", ToJson([c |-> c, given |-> given, log |-> log])>>)
=============================================================================
