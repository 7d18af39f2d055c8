------------------------------- MODULE CliMC --------------------------------
EXTENDS Cli
CONSTANT MaxLen
Chars == {34, 39, 92, 10, 13, 9, 1, 31, 110, 117, 48, 233}
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c)
Spec == Init /\ [][Next]_s
(* A literal is read as the text it stands for, whatever follows.             *)
Reads == ReadLiteral(Literal(s)) = <<s, <<>>>> /\ ReadLiteral(Literal(s) \o <<34, 41>>) = <<s, <<34, 41>>>>
(* Taking the text as it is would not do.                                     *)
Naive == ReadLiteral(<<34>> \o s \o <<34>>) = <<s, <<>>>>
(* Plain output tells dialects apart, but for white space.                     *)
Comp == {0, 44, 34, 92, 233}
Apart == \A a, b, c, d \in Comp : PlainText(Conf(a, b, c)) = PlainText(Conf(b, a, d)) => a = b /\ c = d
=============================================================================
