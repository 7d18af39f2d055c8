----------------------------- MODULE CellTypes -----------------------------
(***************************************************************************)
(* The cell types.  Cells are classified texts (see Regex).                *)
(***************************************************************************)
EXTENDS Regex

Lower  == 97..122
Upper  == 65..90
AZ     == Lower \cup Upper
N09    == 48..57
AZ09   == AZ \cup N09
Sign   == In({43, 45}, {})
LL     == In(Lower, {})

(* ---- sub-texts *)
Part(x, i, j) == [c |-> SubSeq(x.c, i, j), k |-> SubSeq(x.k, i, j)]
Size(x) == Len(x.c)
IsStrip(k) == k \in {KWs, KCs}
RECURSIVE LStrip(_)
LStrip(x) == IF x.c # <<>> /\ IsStrip(x.k[1]) THEN LStrip(Part(x, 2, Size(x))) ELSE x
RECURSIVE RStrip(_)
RStrip(x) == IF x.c # <<>> /\ IsStrip(x.k[Size(x)]) THEN RStrip(Part(x, 1, Size(x) - 1)) ELSE x
Strip(x) == RStrip(LStrip(x))
RECURSIVE RStripCh(_, _)
RStripCh(x, u) == IF x.c # <<>> /\ x.c[Size(x)] = u THEN RStripCh(Part(x, 1, Size(x) - 1), u) ELSE x
Has(x, u) == \E i \in DOMAIN x.c : x.c[i] = u
FirstOf(x, u) == CHOOSE i \in DOMAIN x.c : x.c[i] = u /\ \A j \in 1..(i - 1) : x.c[j] # u
RECURSIVE SplitAt(_, _)
SplitAt(x, u) == IF ~Has(x, u) THEN <<x>>
                 ELSE LET i == FirstOf(x, u) IN <<Part(x, 1, i - 1)>> \o SplitAt(Part(x, i + 1, Size(x)), u)

(* ---- numbers *)
Exponent == Sq(<<In({69, 101}, {}), Opt(Sign), Plus(Digit)>>)
LeadInt  == Opt(Alt(<<Ch(48), Sq(<<In(49..57, {}), Star(Digit)>>)>>))
AfterDigit == Behind({}, {KD})
Number1 ==    \* plain, with a dot or a comma, with or without exponent
  Sq(<<Ahead(In(43..46, {KD})), Opt(Sign), LeadInt,
       Alt(<<
         Sq(<<Alt(<<Sq(<<AfterDigit, Ch(46)>>), Sq(<<Ch(46), Ahead(Digit)>>)>>), Star(Digit), Opt(Exponent)>>),
         Opt(Sq(<<AfterDigit, Exponent>>)),
         Sq(<<Ch(44), Plus(Digit), Opt(Sq(<<Plus(Digit), Exponent>>))>>)
       >>)>>)
Thousands(sep, dec) ==
  Sq(<<Opt(Sign), In(49..57, {}), Rep(Digit, 0, 2),
       Plus(Sq(<<Ch(sep), Rep(Digit, 3, 3)>>)), Ch(dec), Star(Digit)>>)
Number2 == Thousands(44, 46)
Number3 == Thousands(46, 44)
IsNumber(y) ==
  LET x == Strip(y)
  IN y.c # <<>> /\ (FullMatch(Number1, x) \/ FullMatch(Number2, x) \/ FullMatch(Number3, x))

(* ---- url, email, ip *)
Word   == In({45}, {KL, KD, KN})
Port   == Opt(Sq(<<Ch(58), Rep(Digit, 1, 5)>>))
D13    == Rep(Digit, 1, 3)
Ip     == Sq(<<D13, Ch(46), D13, Ch(46), D13, Ch(46), D13>>)
(* _ / ( ) ~ ? = & % - # . :                                               *)
PathCh == In({95, 47, 40, 41, 126, 63, 61, 38, 37, 45, 35, 46, 58}, {KL, KD, KN})
Url ==
  Sq(<<
    Opt(Sq(<<Alt(<<Sq(<<Str(<<104, 116, 116, 112>>), Opt(Ch(115))>>), Str(<<102, 116, 112>>)>>),
             Str(<<58, 47, 47>>), NotAhead(Ch(45))>>)),
    Alt(<<
      Sq(<<Plus(Sq(<<Plus(Word), Ch(46)>>)),
           Alt(<<Rep(LL, 2, -1), Str(<<108, 111, 99, 97, 108>>)>>),
           Opt(Sq(<<Ch(46), Rep(LL, 2, 3)>>))>>),
      Sq(<<Str(<<108, 111, 99, 97, 108, 104, 111, 115, 116>>), Port>>),
      Sq(<<Ip, Port>>)
    >>),
    Opt(Sq(<<Ch(47), Star(PathCh)>>)),
    Opt(Sq(<<Ch(46), Plus(LL)>>))
  >>)
Email == Sq(<<Plus(In(AZ09 \cup {95, 46, 43, 45}, {})), Ch(64), Plus(In(AZ09 \cup {45}, {})), Ch(46),
              Plus(In(AZ09 \cup {45, 46}, {}))>>)

(* ---- times *)
Hour   == Alt(<<Sq(<<In({48, 49}, {}), In(N09, {})>>), Sq(<<Ch(50), In(48..51, {})>>)>>)
Hour1  == Alt(<<In(N09, {}), Sq(<<Ch(49), In(N09, {})>>), Sq(<<Ch(50), In(48..51, {})>>)>>)
Sixty  == Sq(<<In(48..53, {}), In(N09, {})>>)
Colon  == Ch(58)
Times  == Alt(<<
  Sq(<<Hour1, Colon, Sixty>>),
  Sq(<<Hour, Colon, Sixty>>),
  Sq(<<Hour, Colon, Sixty, Colon, Sixty>>),
  Sq(<<Hour, Colon, Sixty, Colon, Sixty, Sign, Sq(<<In({48, 49}, {}), In(N09, {})>>), Colon, Sixty>>) >>)
IsTime(y) == FullMatch(Times, Strip(y))
HHMM   == Sq(<<Hour, Sixty>>)

(* ---- dates *)
M2   == Alt(<<Sq(<<Ch(48), In(49..57, {})>>), Sq(<<Ch(49), In(48..50, {})>>)>>)       \* 01 .. 12
M1   == Alt(<<Sq(<<Opt(Ch(48)), In(49..57, {})>>), Sq(<<Ch(49), In(48..50, {})>>)>>)  \* also 1 .. 9
MS   == Alt(<<In(49..57, {}), Sq(<<Ch(49), In(48..50, {})>>)>>)                       \* 1 .. 12
DTail == <<Sq(<<In({49, 50}, {}), Digit>>), Sq(<<Ch(51), In({48, 49}, {})>>)>>
D2   == Alt(<<Sq(<<Ch(48), In(49..57, {})>>)>> \o DTail)
D1   == Alt(<<Sq(<<Opt(Ch(48)), In(49..57, {})>>)>> \o DTail)
DS   == Alt(<<In(49..57, {})>> \o DTail)
Year == Alt(<<Sq(<<In({49, 50}, {}), Rep(Digit, 3, 3)>>), Rep(Digit, 2, 2)>>)
Seps == <<45, 47, 46, 32>>
SepDates(s) == LET q == Ch(s) IN
  <<Sq(<<M2, q, D1, q, Year>>), Sq(<<D2, q, M1, q, Year>>), Sq(<<Year, q, M1, q, D1>>),
    Sq(<<MS, q, D1, q, Year>>), Sq(<<DS, q, M1, q, Year>>)>>
Date == Alt(
  <<Sq(<<M2, D2, Year>>), Sq(<<D2, M2, Year>>), Sq(<<Year, M2, D2>>),
    Sq(<<Year, Ch(24180), M1, Ch(26376), D1, Ch(26085)>>),
    Sq(<<Year, Ch(45380), M1, Ch(50900), D1, Ch(51068)>>)>>
  \o SepDates(45) \o SepDates(47) \o SepDates(46) \o SepDates(32))
IsDate(y) == FullMatch(Date, Strip(y))

IsOffset(y) == IsTime(y) \/ FullMatch(HHMM, Strip(y))
IsIsoTime(y) ==
  \/ IsTime(y)
  \/ y.c # <<>> /\ y.c[Size(y)] = 90 /\ IsTime(Part(y, 1, Size(y) - 1))
  \/ \E s \in {43, 45} :
       /\ s = 45 => ~Has(y, 43)
       /\ LET ps == SplitAt(y, s) IN Len(ps) = 2 /\ IsTime(ps[1]) /\ IsOffset(ps[2])
IsDatetime(x) ==
  IF Has(x, 32)
  THEN LET ps == SplitAt(x, 32) IN Len(ps) = 2 /\ IsDate(ps[1]) /\ IsTime(ps[2])
  ELSE LET ps == SplitAt(x, 84) IN Len(ps) = 2 /\ IsDate(ps[1]) /\ IsIsoTime(ps[2])

(* ---- the others *)
IsPercentage(x) == x.c # <<>> /\ x.c[Size(x)] = 37 /\ IsNumber(RStripCh(x, 37))
IsCurrency(x) ==
  /\ x.c # <<>> /\ x.k[1] = KSc
  /\ LET a == Part(x, 2, Size(x))
         b == IF a.c # <<>> /\ a.k[1] = KWs THEN Part(a, 2, Size(a)) ELSE a
     IN ~Has(b, 10) /\ IsNumber(b)
UnixPath == Sq(<<Opt(In({126, 46}, {})), Plus(Sq(<<Ch(47), Plus(In(AZ09 \cup {46, 45, 95}, {}))>>)), Opt(Ch(47))>>)
LowerCh(u) == IF u \in Upper THEN u + 32 ELSE u
IsNan(x) == [i \in DOMAIN x.c |-> LowerCh(x.c[i])] \in {<<110, 47, 97>>, <<110, 97>>, <<110, 97, 110>>}

Specials ==   \* punctuation admitted in text
  {45, 95} \cup {46, 1748, 12290, 65106, 65294, 65377} \cup {40, 41, 10222, 10223, 65288, 65289}
  \cup {63, 191, 894, 1374, 1567, 4967, 6469, 8263, 8264, 8265, 11514, 11515, 11822, 42511, 42743, 65046, 65110,
        65311, 69955, 125279}
  \cup {33, 161, 451, 1372, 2041, 4255, 6468, 8252, 43639, 65045, 65111, 65281, 125278}
QuotedSpecials == {44, 1548, 4963, 6146, 6152, 65292, 65104}
IsText(x, quoted) ==
  /\ x.c # <<>>
  /\ \A i \in DOMAIN x.c : \/ x.k[i] \in {KL, KD, KN}
                           \/ x.c[i] = 32 \/ x.c[i] \in Specials
                           \/ quoted /\ x.c[i] \in QuotedSpecials
StartsWith(x, s) == Size(x) >= Len(s) /\ SubSeq(x.c, 1, Len(s)) = s
(* bytearray(b ... )                                                         *)
IsBytearray(x) == StartsWith(x, <<98, 121, 116, 101, 97, 114, 114, 97, 121, 40, 98>>) /\ x.c[Size(x)] = 41

(* ---- JSON: the position after the construct that begins at i, or 0         *)
At(x, i) == IF i >= 1 /\ i <= Size(x) THEN x.c[i] ELSE -1
IsHex(u) == u \in N09 \cup (65..70) \cup (97..102)
RECURSIVE JWs(_, _), JDigits(_, _), JStrTail(_, _), JVal(_, _), JMembers(_, _), JItems(_, _)
JWs(x, i) == IF At(x, i) \in {32, 9, 10, 13} THEN JWs(x, i + 1) ELSE i
JDigits(x, i) == IF At(x, i) \in N09 THEN JDigits(x, i + 1) ELSE i
JStrTail(x, i) ==
  LET u == At(x, i) IN
  IF u = 34 THEN i + 1
  ELSE IF u < 32 THEN 0
  ELSE IF u = 92 THEN
       LET v == At(x, i + 1) IN
       IF v \in {34, 92, 47, 98, 102, 110, 114, 116} THEN JStrTail(x, i + 2)
       ELSE IF v = 117 /\ \A j \in 2..5 : IsHex(At(x, i + j)) THEN JStrTail(x, i + 6) ELSE 0
  ELSE JStrTail(x, i + 1)
JStr(x, i) == IF At(x, i) = 34 THEN JStrTail(x, i + 1) ELSE 0
JLit(x, i, s) == IF i + Len(s) - 1 <= Size(x) /\ SubSeq(x.c, i, i + Len(s) - 1) = s THEN i + Len(s) ELSE 0
JNum(x, i) ==
  LET a == IF At(x, i) = 45 THEN i + 1 ELSE i
      b == IF At(x, a) = 48 THEN a + 1 ELSE JDigits(x, a)
      f == IF At(x, b) = 46 /\ At(x, b + 1) \in N09 THEN JDigits(x, b + 1) ELSE b
      s == IF At(x, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
      e == IF At(x, f) \in {69, 101} /\ At(x, s) \in N09 THEN JDigits(x, s) ELSE f
  IN IF b = a THEN 0 ELSE e
JInfinity == <<73, 110, 102, 105, 110, 105, 116, 121>>
JVal(x, i) ==
  LET u == At(x, i) IN
  IF u = 34 THEN JStr(x, i)
  ELSE IF u = 123 THEN LET j == JWs(x, i + 1) IN IF At(x, j) = 125 THEN j + 1 ELSE JMembers(x, j)
  ELSE IF u = 91 THEN LET j == JWs(x, i + 1) IN IF At(x, j) = 93 THEN j + 1 ELSE JItems(x, j)
  ELSE IF u = 110 THEN JLit(x, i, <<110, 117, 108, 108>>)
  ELSE IF u = 116 THEN JLit(x, i, <<116, 114, 117, 101>>)
  ELSE IF u = 102 THEN JLit(x, i, <<102, 97, 108, 115, 101>>)
  ELSE IF u = 78 THEN JLit(x, i, <<78, 97, 78>>)
  ELSE IF u = 73 THEN JLit(x, i, JInfinity)
  ELSE IF u = 45 /\ At(x, i + 1) = 73 THEN JLit(x, i + 1, JInfinity)
  ELSE JNum(x, i)
JMembers(x, i) ==
  LET a == JStr(x, i) IN
  IF a = 0 THEN 0
  ELSE LET b == JWs(x, a) IN
       IF At(x, b) # 58 THEN 0
       ELSE LET v == JVal(x, JWs(x, b + 1)) IN
            IF v = 0 THEN 0
            ELSE LET w == JWs(x, v) IN
                 IF At(x, w) = 125 THEN w + 1
                 ELSE IF At(x, w) = 44 THEN JMembers(x, JWs(x, w + 1)) ELSE 0
JItems(x, i) ==
  LET v == JVal(x, i) IN
  IF v = 0 THEN 0
  ELSE LET w == JWs(x, v) IN
       IF At(x, w) = 93 THEN w + 1
       ELSE IF At(x, w) = 44 THEN JItems(x, JWs(x, w + 1)) ELSE 0
IsJson(x) == At(x, 1) = 123 /\ At(x, Size(x)) = 125 /\ JVal(x, 1) = Size(x) + 1

(* ---- the type of a cell: the first that applies                            *)
Type(y, quoted) ==
  LET x == Strip(y) IN
  IF x.c = <<>> THEN "empty"
  ELSE IF FullMatch(Url, x) THEN "url"
  ELSE IF FullMatch(Email, x) THEN "email"
  ELSE IF FullMatch(Ip, x) THEN "ipv4"
  ELSE IF IsNumber(x) THEN "number"
  ELSE IF IsTime(x) THEN "time"
  ELSE IF IsPercentage(x) THEN "percentage"
  ELSE IF IsCurrency(x) THEN "currency"
  ELSE IF FullMatch(UnixPath, x) THEN "unix_path"
  ELSE IF IsNan(x) THEN "nan"
  ELSE IF IsDate(x) THEN "date"
  ELSE IF IsDatetime(x) THEN "datetime"
  ELSE IF IsText(x, quoted) THEN "unicode_alphanum"
  ELSE IF IsBytearray(x) THEN "bytearray"
  ELSE IF IsJson(x) THEN "json"
  ELSE "unknown"
IsKnown(y, quoted) == Type(y, quoted) # "unknown"
=============================================================================
