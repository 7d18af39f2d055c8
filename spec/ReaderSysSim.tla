--------------------------- MODULE ReaderSysSim ----------------------------
(* Random behaviours of ReaderSysMC with larger sources (the sources are    *)
(* put together line by line so that the set of initial states is small).   *)
EXTENDS ReaderSysMC
CONSTANT NLines
Total == Len(rs[1].l) + Len(rs[2].l) + Len(rs[3].l)
SimInit == /\ rs \in [1..NReaders -> {[p |-> p, l |-> <<>>] : p \in Ps}]
           /\ st = Start(rs) /\ log = <<>>
AddLine == /\ log = <<>> /\ Total < NLines
           /\ \E i \in 1..NReaders : \E x \in {RandomElement(Lines)} :
                rs' = [rs EXCEPT ![i].l = Append(@, x \o <<LF>>)]
           /\ UNCHANGED <<st, log>>
SimNext == AddLine \/ (Total >= NLines /\ Next)
SimDone == Total >= NLines /\ (Len(log) = MaxReq \/ \A i \in 1..NReaders : ~Alive(i))
PrintSim == SimDone => PrintT(<<"BEH", ToJson([rs |-> rs, log |-> log])>>)
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
