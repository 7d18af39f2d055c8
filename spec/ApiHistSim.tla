----------------------------- MODULE ApiHistSim ----------------------------
(* Random histories, to be replayed on the library.                          *)
EXTENDS ApiHist, TLC, Json, Randomization
CONSTANTS NCalls, NKinds, FirstBegin, MaxLen
(* kinds of objects are NCalls + 1 .. NCalls + NKinds; iter() begins those    *)
(* up to NCalls + FirstBegin                                                 *)
VARIABLES st, log
vars == <<st, log>>
SimInit == st = Start /\ log = <<>>
Event(op, a) == LET q == Do(st, op, a)
                IN st' = q.st /\ log' = Append(log, [op |-> op, a |-> a, r |-> q.r, l |-> q.st.limit])
O == DOMAIN st.objs
SimNext ==
  /\ Len(log) < MaxLen
  /\ \E w \in {RandomElement(1..20)} :
       IF w <= 4 THEN \E v \in {RandomElement(Limits)} : Event("set", v)
       ELSE IF w = 5 THEN \E v \in {RandomElement(1..7)} : Event("bad", v)
       ELSE IF w = 6 THEN Event("get", 0)
       ELSE IF w <= 11 \/ (w >= 14 /\ O = {}) THEN \E k \in {RandomElement(1..NCalls)} : Event("call", k)
       ELSE IF w <= 13 THEN \E k \in {RandomElement(1..NKinds)} : Event("new", NCalls + k)
       ELSE \E o \in {RandomElement(O)} :
              IF w = 14 /\ st.objs[o].k <= NCalls + FirstBegin THEN Event("begin", o) ELSE Event("ask", o)
PrintSim == Len(log) = MaxLen => PrintT(<<"BEH", ToJson(log)>>)
(* Only "set" changes the limit.                                              *)
OnlySet == [][st'.limit # st.limit => log'[Len(log')].op = "set"]_vars
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
