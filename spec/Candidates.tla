----------------------------- MODULE Candidates ----------------------------
(***************************************************************************)
(* The dialects [d, q, e] (0: none) a text may have, before any scoring.   *)
(* x is a classified text (see Regex); cat maps the code points of the     *)
(* text to their Unicode category.                                         *)
(***************************************************************************)
EXTENDS CellTypes

Chars(s) == {s[i] : i \in DOMAIN s}
BlockedCategories == {"Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co"}
(* . / " ' LF CR                                                            *)
BlockedDelimiters == {46, 47, 34, 39, 10, 13}
(* ' " ~ `                                                                  *)
QuoteChars == {39, 34, 126, 96}
(* ! ? " ' . , ; : % * & #                                                  *)
BlockedEscapes == {33, 63, 34, 39, 46, 44, 59, 58, 37, 42, 38, 35}
EscapeBut(u, cat, blocked) == cat[u] = "Po" /\ u \notin blocked
IsEscape(u, cat) == EscapeBut(u, cat, BlockedEscapes)

Blanked(x) == Sub(Url, x, 85, 0)

(* `given` is the set of candidate delimiters, or {-1}: any.                *)
DelimitersBut(nu, cat, given, chars, cats) ==
  {0} \cup (IF given = {-1}
            THEN {u \in Chars(nu) : u = 9 \/ (u \notin chars /\ cat[u] \notin cats)}
            ELSE Chars(nu) \cap given)
Delimiters(nu, cat, given) == DelimitersBut(nu, cat, given, BlockedDelimiters, BlockedCategories)
QuotesOf(nu, S) == {0} \cup (S \cap Chars(nu))
Quotes(nu) == QuotesOf(nu, QuoteChars)
Escapes(t, cat, d, q) ==
  {0} \cup {t[i] : i \in {i \in 1..(Len(t) - 1) : t[i + 1] \in {d, q} /\ IsEscape(t[i], cat)}}

Candidates(x, cat, given) ==
  LET nu == Blanked(x)
  IN UNION {{[d |-> d, q |-> q, e |-> e] : e \in Escapes(x.c, cat, d, q)} :
            <<d, q>> \in Delimiters(nu, cat, given) \X Quotes(nu)}

(* The delimiter occurs somewhere outside quotes: quotes are opened and      *)
(* closed by unescaped quote characters, except that two in a row inside     *)
(* quotes do nothing; an escape character affects only the next character.   *)
RECURSIVE Unmasked(_, _, _, _, _)
Unmasked(t, p, i, inq, esc) ==
  IF i > Len(t) THEN FALSE
  ELSE LET u == t[i] IN
       IF u = p.q
       THEN IF esc THEN Unmasked(t, p, i + 1, inq, FALSE)
            ELSE IF inq /\ i < Len(t) /\ t[i + 1] = p.q THEN Unmasked(t, p, i + 2, TRUE, FALSE)
            ELSE Unmasked(t, p, i + 1, ~inq, FALSE)
       ELSE IF u = p.d /\ ~inq THEN TRUE
       ELSE Unmasked(t, p, i + 1, inq, u = p.e /\ ~esc)
Masked(t, p) == p.d # 0 /\ ~Unmasked(t, p, 1, FALSE, FALSE)
=============================================================================
