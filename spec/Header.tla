------------------------------ MODULE Header -------------------------------
(***************************************************************************)
(* Header detection: the vote.  Cells are classified texts (see Regex).    *)
(*                                                                         *)
(* The type of a cell is what it can be read as - an integer, a real or a  *)
(* complex number, in the notation of Python - or else its length.         *)
(***************************************************************************)
EXTENDS Regex

HStrip(k)  == k \in {KWs, KCs}
HWs        == Star(In({}, {KWs, KCs}))
HSign      == Opt(In({43, 45}, {}))
(* digits, with single underscores between them                            *)
HDigits    == Sq(<<Digit, Star(Sq(<<Opt(Ch(95)), Digit>>))>>)
AnyCase(cs) == Sq([i \in DOMAIN cs |-> In({cs[i], cs[i] - 32}, {})])
HExp       == Opt(Sq(<<In({69, 101}, {}), HSign, HDigits>>))
HReal      == Alt(<<Sq(<<HDigits, Opt(Sq(<<Ch(46), Opt(HDigits)>>)), HExp>>),
                    Sq(<<Ch(46), HDigits, HExp>>),
                    Sq(<<AnyCase(<<105, 110, 102>>), Opt(AnyCase(<<105, 110, 105, 116, 121>>))>>),
                    AnyCase(<<110, 97, 110>>)>>)
HJ         == In({74, 106}, {})
HComplex   == Alt(<<Sq(<<HSign, HReal, Opt(HJ)>>),
                    Sq(<<HSign, HJ>>),
                    Sq(<<HSign, HReal, In({43, 45}, {}), Opt(HReal), HJ>>)>>)

Padded(r)  == Sq(<<HWs, r, HWs>>)
IntRx      == Padded(Sq(<<HSign, HDigits>>))
FloatRx    == Padded(Sq(<<HSign, HReal>>))
ComplexRx  == Padded(Alt(<<HComplex, Sq(<<Ch(40), HWs, HComplex, HWs, Ch(41)>>)>>))

(* The separators 1C-1F are white space only in a cell that is not ASCII    *)
(* (as Python has it).                                                      *)
Spaces(x) == IF \A i \in DOMAIN x.c : x.c[i] < 128
             THEN [x EXCEPT !.k = [i \in DOMAIN x.k |-> IF x.k[i] = KCs THEN KO ELSE x.k[i]]] ELSE x
IsInt(x)     == FullMatch(IntRx, Spaces(x))
IsFloat(x)   == FullMatch(FloatRx, Spaces(x))
IsComplex(x) == FullMatch(ComplexRx, Spaces(x))

(* Characters that may be many without a change to what a cell is read as.   *)
HSteady(u)   == u \in {98, 120, 122} \/ u \in 48..57

HType(t, n)  == [t |-> t, n |-> n]
Undecided    == HType("none", 0)
(* The length of a cell; one may stand for a longer one, of length w.        *)
HWidth(x)    == IF "w" \in DOMAIN x THEN x.w ELSE Len(x.c)
CellType(x)  == IF IsInt(x) THEN HType("int", 0) ELSE IF IsFloat(x) THEN HType("float", 0)
                ELSE IF IsComplex(x) THEN HType("complex", 0) ELSE HType("length", HWidth(x))

(* Does the cell x fit a column of type y?                                 *)
Fits(x, y) == CASE y.t = "none"    -> FALSE
                [] y.t = "length"  -> HWidth(x) = y.n
                [] y.t = "int"     -> IsInt(x)
                [] y.t = "float"   -> IsFloat(x)
                [] y.t = "complex" -> IsComplex(x)

(* ---- the vote, as a definition *)
Range1(s) == {s[i] : i \in DOMAIN s}
Considered(rows, max) ==       \* the rows after the first that take part
  LET n == IF Len(rows) - 1 < max + 1 THEN Len(rows) - 1 ELSE max + 1
  IN SelectSeq(SubSeq(rows, 2, n + 1), LAMBDA r : Len(r) = Len(rows[1]))
ColumnVote(h, cells) ==        \* cells: those of one column
  LET ts == {CellType(c) : c \in Range1(cells)}
  IN IF Cardinality(ts) > 1 THEN 0
     ELSE IF ts = {} THEN 1
     ELSE IF Fits(h, CHOOSE t \in ts : TRUE) THEN -1 ELSE 1
Vote(rows, max) ==
  LET rs == Considered(rows, max)
      v  == [j \in DOMAIN rows[1] |-> ColumnVote(rows[1][j], [i \in DOMAIN rs |-> rs[i][j]])]
  IN Cardinality({j \in DOMAIN v : v[j] = 1}) - Cardinality({j \in DOMAIN v : v[j] = -1})
HasHeader(rows, max) == Len(rows) > 0 /\ Vote(rows, max) > 0

(* ---- the vote, as it is counted: row by row.  cols: column -> type, of   *)
(* the columns still in the running                                        *)
StartCount(h) == [cols |-> [j \in DOMAIN h |-> Undecided], seen |-> 0]
CountRow(h, s, row, max) ==
  IF s.seen > max THEN s
  ELSE IF Len(row) # Len(h) THEN [s EXCEPT !.seen = @ + 1]
  ELSE LET keep == {j \in DOMAIN s.cols : s.cols[j] \in {Undecided, CellType(row[j])}}
       IN [cols |-> [j \in keep |-> CellType(row[j])], seen |-> s.seen + 1]
FinalCount(h, s) == Cardinality({j \in DOMAIN s.cols : ~Fits(h[j], s.cols[j])})
                    - Cardinality({j \in DOMAIN s.cols : Fits(h[j], s.cols[j])})
=============================================================================
