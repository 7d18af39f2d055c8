---------------------------- MODULE CandidatesPad ---------------------------
(* Filler: rows of lower case letters, digits, spaces and common delimiters  *)
(* (comma, semicolon, bar, tab).  CandidatesPadMC checks what two copies of   *)
(* it in a text are as good as.                                              *)
EXTENDS Candidates
IsFiller(f) == /\ Len(f) > 1 /\ f[Len(f)] = 10 /\ f[1] # 10
               /\ \A i \in DOMAIN f : f[i] \in (97..122) \cup (48..57) \cup {32, 44, 59, 124, 9, 10}
=============================================================================
