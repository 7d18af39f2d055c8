---------------------------- MODULE ConcurrentSim --------------------------
(* Random interleavings of calls in several threads, to be replayed.  Thread  *)
(* 1 is the one that sets the limit.  A step is a part of a call.             *)
EXTENDS Concurrent, TLC, Json, Randomization, SequencesExt
CONSTANTS NCalls, NKinds, MaxLen
VARIABLES st, log
vars == <<st, log>>
SimInit == st = Start /\ log = <<>>
Log(e) == log' = Append(log, e)
Begin(t, op, a) == st' = Invoke(st, t, op, a) /\ Log([ph |-> "inv", t |-> t, op |-> op, a |-> a, al |-> <<>>])
SimNext ==
  /\ Len(log) < MaxLen
  /\ \E t \in {RandomElement(Threads)} : \E w \in {RandomElement(1..12)} :
       IF st.pend[t].op # "" THEN
         IF w <= 7 THEN Log([ph |-> "step", t |-> t, op |-> "", a |-> w, al |-> <<>>]) /\ UNCHANGED st
         ELSE LET R == Allowed(st, t)
              IN st' = Return(st, t, R) /\ Log([ph |-> "res", t |-> t, op |-> st.pend[t].op, a |-> 0, al |-> SetToSeq(R)])
       ELSE IF t = 1 /\ w <= 8 THEN
              IF w <= 5 THEN \E v \in {RandomElement(Limits)} : Begin(t, "set", v)
              ELSE IF w = 6 THEN \E v \in {RandomElement(1..6)} : Begin(t, "bad", v)
              ELSE Begin(t, "get", 0)
       ELSE IF w <= 6 \/ (st.objs[t] = <<>> /\ w >= 9) THEN \E k \in {RandomElement(1..NCalls)} : Begin(t, "call", k)
       ELSE IF w <= 8 THEN \E k \in {RandomElement(1..NKinds)} : Begin(t, "new", NCalls + k)
       ELSE \E o \in {RandomElement(DOMAIN st.objs[t])} : Begin(t, "ask", o)
PrintSim == Len(log) = MaxLen => PrintT(<<"BEH", ToJson(log)>>)
(* The limit last set is always one that may be in force; without a set in    *)
(* progress it is the only one.                                               *)
Settled == st.val \in st.cur /\ ((\A t \in Threads : st.pend[t].op # "set") => st.cur = {st.val})
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
