------------------------------ MODULE ScaleMC ------------------------------
(* Every short text, character by character, in every dialect.              *)
EXTENDS Scale, TLC

CONSTANTS MaxLen, Factor

Dl == 44  Qt == 39  Es == 92  Ch == 97
Alphabet == {Dl, Qt, Es, Ch, LF, CR}

VARIABLES p, t
Init == /\ p \in [d : {0, Dl}, q : {0, Qt}, e : {0, Es}, strict : BOOLEAN, limit : {NoLimit}]
        /\ t = <<>>
Next == /\ Len(t) < MaxLen
        /\ \E c \in Alphabet : t' = Append(t, c)
        /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, t>>

StretchedRead ==
  LET r == ParseText(p, t)
      s == ParseText(p, Stretch(t, Ch, Factor))
  IN s.rows = StretchRows(r.rows, Ch, Factor) /\ s.end = r.end

RepeatedRead ==
  Whole(p, t) => LET r == ParseText(p, t) IN
                 ParseText(p, Copies(t, 3)) = [rows |-> Copies(r.rows, 3), end |-> r.end]

StretchedAbstraction == Abstract(p, Stretch(t, Ch, Factor)) = Abstract(p, t)

(* A blank line is no record boundary of its own in the abstraction; apart  *)
(* from that, copies of rounded text give copies of its abstraction, and    *)
(* the score grows in proportion.                                           *)
RepeatedAbstraction ==
  Rounded(p, t) =>
     Abstract(p, Copies(t, 3)) = Abstract(p, t) \o <<Rr>> \o Abstract(p, t) \o <<Rr>> \o Abstract(p, t)

RepeatedScore ==
  Rounded(p, t) => LET f == Fraction(Abstract(p, t)) IN
                   Fraction(Abstract(p, Copies(t, 3))) = Reduce([num |-> 3 * f.num, den |-> f.den])
=============================================================================
