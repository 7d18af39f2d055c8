---------------------------- MODULE TraceReaders ---------------------------
(* Validation of recorded interleavings against ReaderSys.  A case is        *)
(*  [rs : Seq([p, l, hasq]), ev : Seq([r, k, row, q, n, ln])]; n = -1 and    *)
(*  ln = -1 mean "not observed".  k = "src": the exception that the source    *)
(*  raised came through.  A reader goes on after an error, with the next     *)
(*  line.                                                                    *)
EXTENDS ReaderSys, Json, TLC, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

EventVerdict(c, e, q) ==
  LET o == q.o
      s == q.st[e.r]
  IN IF e.k = "exc" THEN "an exception other than clevercsv.Error"
     ELSE IF o.k = "err" /\ o.x = "source" THEN
        (IF e.k = "src" THEN "ok" ELSE "an exception of the source does not come through")
     ELSE IF e.k = "src" THEN "an exception of the source out of place"
     ELSE IF e.k # o.k THEN
        IF e.k = "row" THEN "a record is returned that does not exist"
        ELSE IF o.k = "row" THEN "a record is not returned"
        ELSE "wrong end of the iteration"
     ELSE IF o.k = "row" /\ Plain(<<o.row>>)[1] # e.row THEN "a reader returns another record than alone"
     ELSE IF o.k = "row" /\ c.rs[e.r].hasq /\ Quoted(<<o.row>>)[1] # e.q THEN "wrong quoted flag"
     ELSE IF o.k = "row" /\ e.n # -1 /\ e.n > s.pos THEN "a line is consumed before it is needed"
     ELSE IF o.k = "row" /\ e.n # -1 /\ e.n < s.pos THEN "a record is returned before its lines"
     ELSE IF o.k = "err" /\ e.n # -1 /\ e.n # s.pos THEN "lines are lost with an error"
     ELSE IF e.ln # -1 /\ e.ln # s.cnt THEN "the record count is wrong"
     ELSE "ok"

RECURSIVE Walk(_, _, _)
Walk(c, st, j) ==
  IF j > Len(c.ev) THEN "ok"
  ELSE LET e == c.ev[j]
           q == Request(c.rs, st, e.r)
           v == EventVerdict(c, e, q)
       IN IF v # "ok" THEN v ELSE Walk(c, q.st, j + 1)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET c == Cases[i + 1]
               v == Walk(c, Start(c.rs), 1)
           IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
