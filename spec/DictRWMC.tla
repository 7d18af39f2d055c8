------------------------------ MODULE DictRWMC -----------------------------
(* A DictReader whose field names are asked for at any time, and as often as *)
(* one likes: the dictionaries are those of the records after the header, in *)
(* order, whatever the order of access.                                      *)
EXTENDS DictRW, TLC, Json, FiniteSets

CONSTANTS MaxLines, MaxCells, MaxOps

Cells == {<<>>, <<97>>, <<98>>}
RECURSIVE Join(_)
Join(r) == IF r = <<>> THEN <<>> ELSE IF Len(r) = 1 THEN r[1] ELSE r[1] \o <<44>> \o Join(Tail(r))
Rows == UNION {[1..n -> Cells] : n \in 0..MaxCells} \ {<<<<>>>>}
LineOf(r) == Join(r) \o <<LF>>
A == Str(<<97>>)  B == Str(<<98>>)
Given == {<<>>, <<<<A>>>>, <<<<A, B>>>>, <<<<A, A>>>>}

VARIABLES c, s, given, log, lines
vars == <<c, s, given, log, lines>>

Init == /\ given \in Given
        /\ lines = <<>>
        /\ c = [p |-> Conf(44, 34, 0), l |-> <<>>, rk |-> Nil, rv |-> Nil]
        /\ s = RdStart(given) /\ log = <<>>

Grow == /\ log = <<>> /\ Len(lines) < MaxLines
        /\ \E r \in Rows : lines' = Append(lines, r) /\ c' = [c EXCEPT !.l = Append(@, LineOf(r))]
        /\ UNCHANGED <<s, given, log>>

Do(a) == /\ Len(log) < MaxOps
         /\ (IF log = <<>> THEN TRUE ELSE log[Len(log)].o.k # "stop")
         /\ LET x == IF a = "ask" THEN Ask(c, s) ELSE NextDict(c, s) IN
            s' = x.s /\ log' = Append(log, [a |-> a, o |-> x.o])
         /\ UNCHANGED <<c, given, lines>>
Next == Grow \/ Do("ask") \/ Do("next")
Spec == Init /\ [][Next]_vars

Dicts == SelectSeq(log, LAMBDA e : e.a = "next" /\ e.o.k = "dict")
Header == IF given # <<>> THEN given[1]
          ELSE IF lines = <<>> THEN <<>> ELSE [i \in DOMAIN lines[1] |-> Str(lines[1][i])]
Body == SelectSeq(IF given # <<>> \/ lines = <<>> THEN lines ELSE Tail(lines), LAMBDA r : r # <<>>)

(* However the field names are asked for, the j-th dictionary is that of    *)
(* the j-th record of the body.                                             *)
InOrder == \A j \in DOMAIN Dicts :
             j <= Len(Body) /\ Dicts[j].o.d = ToDictRow(Header, Body[j], c.rk, c.rv)
AllSeen == log # <<>> /\ log[Len(log)].o.k = "stop" => Len(Dicts) = Len(Body)
NamesStable == \A j \in DOMAIN log : log[j].o.k = "names" => log[j].o.n = Header
NoErrors == \A j \in DOMAIN log : log[j].o.k # "err"

(* What was written comes back: for texts under distinct names.             *)
RoundTrip == \A j \in DOMAIN Dicts : ~Duplicates(Header) /\ Len(Body[j]) = Len(Header) =>
               RecordOf(Header, [i \in DOMAIN Dicts[j].o.d |-> [k |-> Dicts[j].o.d[i].k, v |-> Dicts[j].o.d[i].v.s]], <<>>) = Body[j]
=============================================================================
