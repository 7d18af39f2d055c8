----------------------------- MODULE ReaderSys -----------------------------
(***************************************************************************)
(* Several readers in progress at the same time.  Reader r has a parser    *)
(* configuration p and a source (its lines); its state is the number of    *)
(* lines it has consumed (pos) and the number of records it has returned   *)
(* (cnt).  A request to one reader changes the state of that reader only.  *)
(***************************************************************************)
EXTENDS CsvParser

Start(rs) == [i \in DOMAIN rs |-> [pos |-> 0, cnt |-> 0]]

(* The outcome of a request to reader i, and the state of the system after *)
(* it.                                                                     *)
Request(rs, st, i) ==
  LET r == NextRecord(rs[i].p, rs[i].l, st[i].pos + 1)
      \* NextRecord reports the index of the next line; lines that do not
      \* exist have not been consumed
      pos == IF r.n - 1 > Len(rs[i].l) THEN Len(rs[i].l) ELSE r.n - 1
  IN [o |-> r.o,
      st |-> [st EXCEPT ![i].pos = pos,
                        ![i].cnt = @ + (IF r.o.k = "row" THEN 1 ELSE 0)]]
=============================================================================
