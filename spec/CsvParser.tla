----------------------------- MODULE CsvParser -----------------------------
(***************************************************************************)
(* The CleverCSV parser: an LL(2) push-down-free transducer from lines of  *)
(* text to records.                                                        *)
(*                                                                         *)
(* Text is a sequence of code points (naturals, never 0).  0 plays two     *)
(* roles, as in the implementation: "no such character" in a dialect, and  *)
(* "end of the line" as look-ahead and as the character fed after the last *)
(* character of a line.                                                    *)
(*                                                                         *)
(* A parser configuration p is a record                                    *)
(*    [d, q, e : code point or 0, strict : BOOLEAN, limit : Nat]           *)
(* A parser state s is a record                                            *)
(*    [m : mode, f : Seq(code point) (the field being built),              *)
(*     r : Seq([c : Seq(cp), q : BOOLEAN]) (the finished cells),           *)
(*     x : "" or the class of the error that stopped the parser]           *)
(*                                                                         *)
(* The operators below are used by CsvParserMC (exhaustive model checking  *)
(* of the grammar's own laws), by the Trace* modules (validation of calls  *)
(* recorded from the implementation), and by every other module that needs *)
(* to know what a text parses to (tie breaking, type score, round trip...).*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LF == 10
CR == 13
NoLimit == 2000000000
NotText == 1114112   \* a "line" that is not a text at all is <<NotText>>
Breaks == 1114113    \* <<Breaks>>: the source raises an exception of its own

IsNL(u) == u = LF \/ u = CR

Modes == {"START_RECORD", "START_FIELD", "ESCAPED_CHAR", "IN_FIELD",
          "IN_QUOTED_FIELD", "ESCAPE_IN_QUOTED_FIELD",
          "QUOTE_IN_QUOTED_FIELD", "EAT_CRNL", "AFTER_ESCAPED_CRNL"}

Fresh == [m |-> "START_RECORD", f |-> <<>>, r |-> <<>>, x |-> ""]

Fail(s, class) == [s EXCEPT !.x = class]

(* A cell is quoted when the raw field, of at least two characters, begins *)
(* and ends with the quote character; the quotes are then removed.         *)
Enclosed(p, f) == /\ p.q # 0
                  /\ Len(f) > 1
                  /\ f[1] = p.q
                  /\ f[Len(f)] = p.q

Cell(p, f) == IF Enclosed(p, f)
              THEN [c |-> SubSeq(f, 2, Len(f) - 1), q |-> TRUE]
              ELSE [c |-> f, q |-> FALSE]

(* The last cell of data that ends inside a record: one more leading quote *)
(* (an unterminated quoted cell) is removed.                               *)
TrailingCell(p, f) ==
  LET c == Cell(p, f) IN
  IF p.q # 0 /\ Len(c.c) > 0 /\ c.c[1] = p.q
  THEN [c |-> Tail(c.c), q |-> TRUE]
  ELSE c

Save(p, s, mode) == [s EXCEPT !.r = Append(@, Cell(p, s.f)),
                              !.f = <<>>, !.m = mode]

(* Append a character; the limit counts the characters of the raw field.   *)
Add(p, s, u, mode) ==
  IF Len(s.f) >= p.limit THEN Fail(s, "limit")
  ELSE [s EXCEPT !.f = Append(@, u), !.m = mode]

Add2(p, s, u1, u2, mode) ==
  LET t == Add(p, s, u1, mode) IN
  IF t.x # "" THEN t ELSE Add(p, t, u2, mode)

EndOfCell(p, s, u) == Save(p, s, IF u = 0 THEN "START_RECORD" ELSE "EAT_CRNL")

StartField(p, s, u) ==
  IF IsNL(u) \/ u = 0 THEN EndOfCell(p, s, u)
  ELSE IF u = p.q THEN Add(p, s, u, "IN_QUOTED_FIELD")
  ELSE IF u = p.e THEN [s EXCEPT !.m = "ESCAPED_CHAR"]
  ELSE IF u = p.d THEN Save(p, s, "START_FIELD")
  ELSE Add(p, s, u, "IN_FIELD")

StartRecord(p, s, u) ==
  IF u = 0 THEN s
  ELSE IF IsNL(u) THEN [s EXCEPT !.m = "EAT_CRNL"]
  ELSE StartField(p, s, u)

(* Only the delimiter, the quote and the escape character itself can be    *)
(* escaped, and a line end; in front of any other character the escape     *)
(* character is an ordinary character.                                     *)
Escapable(p, u) == u = p.d \/ u = p.e \/ u = p.q

EscapedChar(p, s, u) ==
  IF u = 0 THEN [s EXCEPT !.m = "IN_FIELD"]
  ELSE IF IsNL(u) THEN Add(p, s, u, "AFTER_ESCAPED_CRNL")
  ELSE IF Escapable(p, u) THEN Add(p, s, u, "IN_FIELD")
  ELSE Add2(p, s, p.e, u, "IN_FIELD")

InField(p, s, u) ==
  IF IsNL(u) \/ u = 0 THEN EndOfCell(p, s, u)
  ELSE IF u = p.e THEN [s EXCEPT !.m = "ESCAPED_CHAR"]
  ELSE IF u = p.q THEN Add(p, s, u, "IN_QUOTED_FIELD")
  ELSE IF u = p.d THEN Save(p, s, "START_FIELD")
  ELSE Add(p, s, u, "IN_FIELD")

AfterEscapedNewline(p, s, u) == IF u = 0 THEN s ELSE InField(p, s, u)

(* In strict mode a quote that closes must be followed by a delimiter or by *)
(* the end of the line.                                                     *)
MayFollowQuote(p, v) == v = 0 \/ v = p.d \/ IsNL(v)

InQuotedField(p, s, u, v) ==
  IF u = 0 THEN s
  ELSE IF u = p.e THEN [s EXCEPT !.m = "ESCAPE_IN_QUOTED_FIELD"]
  ELSE IF u = p.q THEN
       IF v = p.q THEN [s EXCEPT !.m = "QUOTE_IN_QUOTED_FIELD"]
       ELSE IF p.strict /\ ~MayFollowQuote(p, v) THEN Fail(s, "strict")
       ELSE Add(p, s, u, "IN_FIELD")
  ELSE Add(p, s, u, "IN_QUOTED_FIELD")

EscapeInQuotedField(p, s, u) ==
  IF u = 0 THEN Add(p, s, LF, "IN_QUOTED_FIELD")
  ELSE IF Escapable(p, u) THEN Add(p, s, u, "IN_QUOTED_FIELD")
  ELSE Add2(p, s, p.e, u, "IN_QUOTED_FIELD")

(* Reached only when the next character is the quote character.            *)
QuoteInQuotedField(p, s, u) == Add(p, s, u, "IN_QUOTED_FIELD")

EatNewline(p, s, u) ==
  IF IsNL(u) THEN s
  ELSE IF u = 0 THEN [s EXCEPT !.m = "START_RECORD"]
  ELSE Fail(s, "newline")

(* One character u, with v the character that follows it in the line.      *)
Step(p, s, u, v) ==
  CASE s.m = "IN_FIELD"               -> InField(p, s, u)
    [] s.m = "START_FIELD"            -> StartField(p, s, u)
    [] s.m = "IN_QUOTED_FIELD"        -> InQuotedField(p, s, u, v)
    [] s.m = "START_RECORD"           -> StartRecord(p, s, u)
    [] s.m = "ESCAPED_CHAR"           -> EscapedChar(p, s, u)
    [] s.m = "ESCAPE_IN_QUOTED_FIELD" -> EscapeInQuotedField(p, s, u)
    [] s.m = "QUOTE_IN_QUOTED_FIELD"  -> QuoteInQuotedField(p, s, u)
    [] s.m = "EAT_CRNL"               -> EatNewline(p, s, u)
    [] s.m = "AFTER_ESCAPED_CRNL"     -> AfterEscapedNewline(p, s, u)

(* One line: all its characters, then the end of the line.                 *)
FeedLine(p, s0, line) ==
  LET n == Len(line)
      F(s, i) == IF s.x # "" THEN s
                 ELSE IF line[i] = 0 THEN Fail(s, "null")
                 ELSE IF line[i] = NotText THEN Fail(s, "nottext")
                 ELSE IF line[i] = Breaks THEN Fail(s, "source")
                 ELSE Step(p, s, line[i], IF i < n THEN line[i+1] ELSE 0)
      t == FoldLeftDomain(F, s0, line)
  IN IF t.x # "" THEN t ELSE Step(p, t, 0, 0)

(* What a parser does when its source is exhausted in state s.             *)
AtEnd(p, s) ==
  IF s.m = "START_RECORD" THEN [k |-> "stop"]
  ELSE IF p.strict THEN [k |-> "err", x |-> "eof"]
  ELSE [k |-> "row", row |-> Append(s.r, TrailingCell(p, s.f))]

(* One request for a record, with the first line not yet consumed at index *)
(* i: the outcome, and the index of the next line (n).                     *)
RECURSIVE Pull(_, _, _, _)
Pull(p, s, lines, i) ==
  IF i > Len(lines) THEN [o |-> AtEnd(p, s), n |-> i]
  ELSE LET t == FeedLine(p, s, lines[i]) IN
       IF t.x # "" THEN [o |-> [k |-> "err", x |-> t.x], n |-> i + 1]
       ELSE IF t.m = "START_RECORD"
            THEN [o |-> [k |-> "row", row |-> t.r], n |-> i + 1]
       ELSE Pull(p, t, lines, i + 1)

NextRecord(p, lines, i) == Pull(p, Fresh, lines, i)

(* All records, up to and including the first outcome that is no record.   *)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(p, lines, i, acc) ==
  LET r == NextRecord(p, lines, i) IN
  IF r.o.k = "row" THEN RunFrom(p, lines, r.n, Append(acc, r.o.row))
  ELSE [rows |-> acc, end |-> IF r.o.k = "stop" THEN "stop" ELSE r.o.x]

Run(p, lines) == RunFrom(p, lines, 1, <<>>)

(* Universal newlines without translation: how a text file opened with     *)
(* newline="" hands out its lines.                                         *)
LineEnds(t) ==
  SelectSeq([i \in 1..Len(t) |-> i],
            LAMBDA i : \/ t[i] = LF
                       \/ t[i] = CR /\ (i = Len(t) \/ t[i+1] # LF))

SplitLines(t) ==
  LET ends == LineEnds(t)
      k    == Len(ends)
      tail == k = 0 \/ ends[k] # Len(t)
      st(j) == IF j = 1 THEN 1 ELSE ends[j-1] + 1
      cut  == [j \in 1..k |-> SubSeq(t, st(j), ends[j])]
  IN IF Len(t) = 0 THEN <<>>
     ELSE IF tail THEN Append(cut, SubSeq(t, st(k+1), Len(t))) ELSE cut

ParseText(p, t) == Run(p, SplitLines(t))

Plain(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> rows[i][j].c]]
Quoted(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> rows[i][j].q]]

Conf(d, q, e) == [d |-> d, q |-> q, e |-> e, strict |-> FALSE, limit |-> NoLimit]
=============================================================================
