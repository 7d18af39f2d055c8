---------------------------- MODULE NormalFormMC ---------------------------
(* A text in a normal form reads as the table of the form.                   *)
EXTENDS NormalForm, TLC
P == INSTANCE CsvParser
CONSTANTS MaxLen, Alphabet
Delims == <<44, 59>>
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E u \in Alphabet : t' = Append(t, u)
Spec == Init /\ [][Next]_t

F == Normal(t, Delims, {92})
Reads == F.k \in {1, 2, 3} =>
  LET r == P!ParseText(P!Conf(F.p.d, F.p.q, F.p.e), StripEnds(t))
      w == Table(t, F.p)
  IN /\ r.end = "stop"
     /\ P!Plain(r.rows) = w
     /\ \A i \in DOMAIN w : Len(w[i]) = Len(w[1]) /\ Len(w[i]) > 1
(* A column reads as the rows without their quotes; quoted rows too.         *)
Column == F.k = 4 =>
  LET r == P!ParseText(P!Conf(0, F.p.q, 0), StripEnds(t))
      rows == FileRows(t)
      full == SelectSeq(rows, LAMBDA c : c # <<>>)
      got == SelectSeq(P!Plain(r.rows), LAMBDA c : c # <<>>)
  IN r.end = "stop" /\ got = [i \in DOMAIN full |-> <<Bare(full[i], F.p.q)>>]
Closed == F.k # 0 => \A n \in {<<10>>, <<13>>, <<13, 10>>} : Normal(t \o n, Delims, {92}) = F
NoEscapes == In2(t, 92) => F.k \in {0, 1, 3}
=============================================================================
