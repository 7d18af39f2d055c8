---------------------------- MODULE ReaderSysMC ----------------------------
(* Readers with arbitrary small sources, requests in every order.           *)
EXTENDS ReaderSys, TLC, Json, FiniteSets

CONSTANTS NReaders, MaxLen, MaxLines, MaxReq, Emit

Dl == 44  Qt == 39  Es == 92  Ch == 97
Alphabet == {Dl, Qt, Es, Ch, CR}
Lines == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Ps == {Conf(Dl, Qt, Es), Conf(Dl, Qt, 0), Conf(0, 0, 0)}

VARIABLES rs, st, log
vars == <<rs, st, log>>

\* lines end in LF, except perhaps the last
Source(n) == [1..n -> {Append(x, LF) : x \in Lines} \cup Lines]
Init == /\ rs \in [1..NReaders -> {[p |-> p, l |-> l] : p \in Ps, l \in UNION {Source(n) : n \in 0..MaxLines}}]
        /\ st = Start(rs)
        /\ log = <<>>

Alive(i) == \A j \in DOMAIN log : log[j].r = i => log[j].k \in {"row", "iter"}

Ask(i) == /\ Len(log) < MaxReq /\ Alive(i)
          /\ LET q == Request(rs, st, i) IN
             /\ st' = q.st
             /\ log' = Append(log, [r |-> i, k |-> q.o.k,
                                    row |-> IF q.o.k = "row" THEN Plain(<<q.o.row>>)[1] ELSE <<>>,
                                    q |-> IF q.o.k = "row" THEN Quoted(<<q.o.row>>)[1] ELSE <<>>,
                                    n |-> q.st[i].pos, ln |-> q.st[i].cnt])
          /\ UNCHANGED rs

Next == \E i \in 1..NReaders : Ask(i)
Spec == Init /\ [][Next]_vars

(* The records reader i returned, whatever else happened, are an initial    *)
(* part of the records of its own source.                                   *)
Rows(i) == [j \in 1..Len(SelectSeq(log, LAMBDA e : e.r = i /\ e.k = "row")) |->
              SelectSeq(log, LAMBDA e : e.r = i /\ e.k = "row")[j].row]
Independent == \A i \in 1..NReaders :
                 LET run == Run(rs[i].p, rs[i].l) IN
                 /\ IsPrefix(Rows(i), Plain(run.rows))
                 /\ (~Alive(i) => Rows(i) = Plain(run.rows))
CountOK == \A i \in 1..NReaders : st[i].cnt = Len(Rows(i))

(* No line is consumed before it is needed: without the last line it        *)
(* consumed, the request would not have completed.                          *)
Lazy == \A i \in 1..NReaders :
          LET k == st[i].pos IN
          Alive(i) /\ st[i].cnt > 0 /\ k > 0 =>
             \/ k = Len(rs[i].l)
             \/ Len(Run(rs[i].p, SubSeq(rs[i].l, 1, k)).rows) = st[i].cnt
OthersUntouched == [][\A i \in 1..NReaders : st'[i] # st[i] => log'[Len(log')].r = i]_vars

(* Behaviours for replay                                                    *)
PrintBeh == Len(log) = MaxReq => ~Emit \/ PrintT(<<"BEH", ToJson([rs |-> rs, log |-> log])>>)
=============================================================================
