------------------------------- MODULE Scale -------------------------------
(* Texts too long to be spelled out: a text in which an ordinary character   *)
(* stands for many copies of itself, and a block of whole records that       *)
(* stands for many copies of the block.  ScaleMC checks that reading and     *)
(* abstracting commute with both, so that what the code does with the long   *)
(* text can be judged from the short one.                                    *)
EXTENDS CsvParser, Abstraction

RECURSIVE Copies(_, _)
Copies(t, k) == IF k = 0 THEN <<>> ELSE t \o Copies(t, k - 1)

(* Every x in t is replaced by k copies.                                     *)
RECURSIVE Stretch(_, _, _)
Stretch(t, x, k) == IF t = <<>> THEN <<>>
                    ELSE (IF Head(t) = x THEN Copies(<<x>>, k) ELSE <<Head(t)>>) \o Stretch(Tail(t), x, k)
StretchRows(rows, x, k) ==
  [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> [c |-> Stretch(rows[i][j].c, x, k), q |-> rows[i][j].q]]]

(* x has no meaning of its own.                                              *)
Ordinary(p, x) == x \notin {p.d, p.q, p.e} /\ ~IsNL(x) /\ x # 0

(* The text consists of whole records: strict mode finds nothing missing.    *)
Whole(p, t) == /\ t # <<>> /\ IsNL(t[Len(t)]) /\ t[1] # LF
               /\ ParseText([p EXCEPT !.strict = TRUE], t).end = "stop"

(* For the abstraction: no row end at the start, all quotes are closed and   *)
(* no escape is pending at the end.                                          *)
RECURSIVE ClosedFrom(_, _)
ClosedFrom(s, i) == IF i > Len(s) THEN TRUE
                    ELSE IF s[i] # Qq THEN ClosedFrom(s, i + 1)
                    ELSE LET c == CloseAt(s, i + 1) IN c # 0 /\ ClosedFrom(s, c + 1)
Rounded(pp, tt) == /\ tt # <<>> /\ IsNL(tt[Len(tt)]) /\ Base(pp, tt)[1] # Rr
                   /\ ClosedFrom(Base(pp, tt), 1)
                   /\ ~FoldLeft(LAMBDA a, u : BaseStep(pp, a, u), [s |-> <<>>, esc |-> FALSE], tt).esc
=============================================================================
