---------------------------- MODULE CsvParserMC ----------------------------
(* Exhaustive model checking of the parser as a machine: the environment    *)
(* delivers characters one at a time (with one character of look-ahead),    *)
(* ends lines, ends the data; the parser emits records.                     *)
EXTENDS CsvParser, FiniteSets, TLC

CONSTANTS MaxChars, MaxLines, Limit, StrictSet

Dl == 44  Qt == 39  Es == 92  Ch == 97  Sp == 32
Alphabet == {Dl, Qt, Es, Ch, Sp, LF, CR}
Configs == [d : {0, Dl}, q : {0, Qt}, e : {0, Es}, strict : StrictSet, limit : {Limit}]

VARIABLES p,     \* the configuration
          s,     \* parser state
          u,     \* the character read but not yet processed (0: none)
          raw,   \* all characters of the current record, as read
          nch,   \* characters read in total
          nl,    \* lines read in total
          out,   \* the record emitted by the last step, if any
          inl    \* inside a line?
vars == <<p, s, u, raw, nch, nl, out, inl>>

Init == /\ p \in Configs
        /\ s = Fresh /\ u = 0 /\ raw = <<>> /\ nch = 0 /\ nl = 0 /\ out = <<"none">> /\ inl = FALSE

Live == s.x = "" /\ out[1] # "end"

(* A line starts: its first character is read.                              *)
StartLine(c) ==
  /\ Live /\ ~inl /\ nl < MaxLines /\ nch < MaxChars
  /\ u' = c /\ inl' = TRUE /\ nl' = nl + 1 /\ nch' = nch + 1
  /\ raw' = Append(IF s.m = "START_RECORD" THEN <<>> ELSE raw, c)
  /\ s' = IF s.m = "START_RECORD" THEN Fresh ELSE s
  /\ out' = <<"none">> /\ UNCHANGED p

(* The next character of the line is read, the previous one is processed.   *)
ReadChar(c) ==
  /\ Live /\ inl /\ u # 0 /\ nch < MaxChars
  /\ ~(u = LF)                    \* lines end at LF
  /\ s' = Step(p, s, u, c)
  /\ u' = c /\ nch' = nch + 1 /\ raw' = Append(raw, c)
  /\ out' = <<"none">> /\ UNCHANGED <<p, nl, inl>>

(* The line ends: its last character and the end of the line are processed. *)
EndLine ==
  /\ Live /\ inl /\ u # 0
  /\ LET t == Step(p, s, u, 0)
         w == IF t.x # "" THEN t ELSE Step(p, t, 0, 0)
     IN /\ s' = w
        /\ out' = IF w.x = "" /\ w.m = "START_RECORD" THEN <<"row", w.r>> ELSE <<"none">>
  /\ u' = 0 /\ inl' = FALSE /\ UNCHANGED <<p, raw, nch, nl>>

(* The data end.                                                            *)
EndData ==
  /\ Live /\ ~inl
  /\ LET o == AtEnd(p, IF s.m = "START_RECORD" THEN Fresh ELSE s) IN
     out' = IF o.k = "row" THEN <<"end", o.row>> ELSE <<"end", <<>>, o.k>>
  /\ UNCHANGED <<p, s, u, raw, nch, nl, inl>>

Next == \/ \E c \in Alphabet : StartLine(c) \/ ReadChar(c)
        \/ EndLine \/ EndData
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == /\ s.m \in Modes
          /\ s.x \in {"", "limit", "strict", "newline", "null"}

(* The second look-ahead character makes three branches of the              *)
(* implementation's QUOTE_IN_QUOTED_FIELD state dead code.                  *)
DoubledQuoteOnly == s.x = "" /\ s.m = "QUOTE_IN_QUOTED_FIELD" => u = p.q

(* Without a quote or escape character the corresponding states are unused. *)
NoQuoteNoQuoting == p.q = 0 => s.m \notin {"IN_QUOTED_FIELD", "ESCAPE_IN_QUOTED_FIELD", "QUOTE_IN_QUOTED_FIELD"}
NoEscapeNoEscaping == p.e = 0 => s.m \notin {"ESCAPED_CHAR", "ESCAPE_IN_QUOTED_FIELD", "AFTER_ESCAPED_CRNL"}

(* Errors are only the documented ones.                                     *)
StrictErrorsOnlyInStrict == s.x = "strict" => p.strict
LimitErrorsOnlyAtLimit   == s.x = "limit" => nch > Limit
NewlineErrorOnlyAfterCR  == s.x = "newline" => \E i \in 1..Len(raw)-1 : IsNL(raw[i])

RECURSIVE SumLen(_)
SumLen(r) == IF r = <<>> THEN 0 ELSE Len(r[1].c) + SumLen(Tail(r))

(* Nothing is invented: a record never holds more characters than were read *)
(* (plus the line feed of an escaped line end that the source lacked).      *)
NothingInvented == out[1] \in {"row", "end"} => SumLen(out[2]) <= Len(raw) + nl

(* Every character of a finished record is ordinary content, or is a        *)
(* delimiter, a line end, a quote or an escape: with neither quotes nor     *)
(* escapes the record can be put together again exactly.                    *)
RECURSIVE Glue(_, _)
Glue(r, d) == IF Len(r) = 0 THEN <<>> ELSE IF Len(r) = 1 THEN r[1].c
              ELSE r[1].c \o <<d>> \o Glue(Tail(r), d)
RECURSIVE StripNL(_)
StripNL(t) == IF t # <<>> /\ IsNL(t[Len(t)]) THEN StripNL(SubSeq(t, 1, Len(t) - 1)) ELSE t
PlainConservation ==
  out[1] = "row" /\ p.q = 0 /\ p.e = 0 => Glue(out[2], p.d) = StripNL(raw)

(* Ordinary characters are conserved whatever the dialect does.             *)
RECURSIVE CountIn(_, _)
CountIn(t, c) == IF t = <<>> THEN 0 ELSE (IF Head(t) = c THEN 1 ELSE 0) + CountIn(Tail(t), c)
RECURSIVE CellsCount(_, _)
CellsCount(r, c) == IF r = <<>> THEN 0 ELSE CountIn(r[1].c, c) + CellsCount(Tail(r), c)
OrdinaryConserved ==
  out[1] = "row" \/ (out[1] = "end" /\ Len(out[2]) > 0) =>
     /\ CellsCount(out[2], Ch) = CountIn(raw, Ch)
     /\ CellsCount(out[2], Sp) = CountIn(raw, Sp)
     /\ (p.q = 0 => CellsCount(out[2], Qt) = CountIn(raw, Qt))
     /\ (p.e = 0 => CellsCount(out[2], Es) = CountIn(raw, Es))
     /\ (p.d = 0 => CellsCount(out[2], Dl) = CountIn(raw, Dl))

(* The data never end in the middle of a record without a record (or an     *)
(* error in strict mode) for it.                                            *)
NothingDropped ==
  out[1] = "end" /\ Len(out) = 3 /\ out[3] = "stop" => s.m = "START_RECORD"

(* A finished cell is final.                                                *)
CellsFinal == [][\/ s'.r = <<>> \/ IsPrefix(s.r, s'.r)]_vars
ErrorsFinal == [][s.x # "" => UNCHANGED s]_vars
=============================================================================
