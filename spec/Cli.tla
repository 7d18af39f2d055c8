-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* What the commands that only look at a file print or show.               *)
(***************************************************************************)
EXTENDS Standardize

(* Characters removed at the ends of a line of plain output.                 *)
White == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8192, 8193, 8194, 8195, 8196, 8197, 8198, 8199, 8200, 8201,
          8202, 8232, 8233, 8239, 8287, 12288}
RECURSIVE RStrip(_)
RStrip(t) == IF t # <<>> /\ t[Len(t)] \in White THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Component(name, c) == RStrip(name \o <<32, 61, 32>> \o (IF c = 0 THEN <<>> ELSE <<c>>))
PlainText(p) ==
  Component(<<100, 101, 108, 105, 109, 105, 116, 101, 114>>, p.d) \o <<LF>> \o
  Component(<<113, 117, 111, 116, 101, 99, 104, 97, 114>>, p.q) \o <<LF>> \o
  Component(<<101, 115, 99, 97, 112, 101, 99, 104, 97, 114>>, p.e) \o <<LF>>

(* The table that is shown: missing cells are <<-1>> when it is transposed.   *)
NoCell == <<-1>>
Shown(transpose, rows) ==
  IF ~transpose THEN rows
  ELSE [j \in 1..Width(rows) |-> [i \in DOMAIN rows |-> IF j <= Len(rows[i]) THEN rows[i][j] ELSE NoCell]]

(* A text as a literal of the generated program, and what Python reads.       *)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
LitChar(c) == IF c = 34 THEN <<92, 34>> ELSE IF c = 92 THEN <<92, 92>>
              ELSE IF c = 10 THEN <<92, 110>> ELSE IF c = 13 THEN <<92, 114>> ELSE IF c = 9 THEN <<92, 116>>
              ELSE IF c < 32 THEN <<92, 117, 48, 48, Hex(c \div 16), Hex(c % 16)>> ELSE <<c>>
RECURSIVE LitChars(_)
LitChars(s) == IF s = <<>> THEN <<>> ELSE LitChar(Head(s)) \o LitChars(Tail(s))
Literal(s) == <<34>> \o LitChars(s) \o <<34>>
UnHex(c) == IF c < 58 THEN c - 48 ELSE c - 87
(* <<value, rest>> of a literal, or <<>> if it is none.                       *)
RECURSIVE Value(_, _)
Value(t, acc) ==
  IF t = <<>> \/ t[1] \in {10, 13} THEN <<>>
  ELSE IF t[1] = 34 THEN <<acc, Tail(t)>>
  ELSE IF t[1] # 92 THEN Value(Tail(t), Append(acc, t[1]))
  ELSE IF Len(t) < 2 THEN <<>>
  ELSE IF t[2] = 117 THEN (IF Len(t) < 6 THEN <<>>
                           ELSE Value(SubSeq(t, 7, Len(t)), Append(acc, UnHex(t[3]) * 4096 + UnHex(t[4]) * 256 + UnHex(t[5]) * 16 + UnHex(t[6]))))
  ELSE Value(SubSeq(t, 3, Len(t)), Append(acc, CASE t[2] = 110 -> 10 [] t[2] = 114 -> 13 [] t[2] = 116 -> 9 [] OTHER -> t[2]))
ReadLiteral(t) == IF t = <<>> \/ t[1] # 34 THEN <<>> ELSE Value(Tail(t), <<>>)

StartsWith(a, t) == Len(a) <= Len(t) /\ SubSeq(t, 1, Len(a)) = a
=============================================================================
