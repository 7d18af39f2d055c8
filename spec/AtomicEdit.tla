----------------------------- MODULE AtomicEdit -----------------------------
(***************************************************************************)
(* What may be seen of a command that edits files in place, at any moment: *)
(* every file is as it was or edited, one after another.                   *)
(* A state is [file : Seq of "old" or "new", extra : other files exist,    *)
(* st : "runs", "ok", "fails" or "killed"].  same[i]: edited, file i is as  *)
(* it was.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

AllOld(n) == [file |-> [i \in 1..n |-> "old"], extra |-> FALSE, st |-> "runs"]
Whole(s) == \A i \in DOMAIN s.file : s.file[i] \in {"old", "new"}

(* Steps of a command that edits (edits) or does not.                        *)
EditOne(edits, s, t) ==
  /\ edits /\ t.st = s.st
  /\ \E i \in DOMAIN s.file :
       /\ s.file[i] = "old" /\ t.file = [s.file EXCEPT ![i] = "new"]
Elsewhere(s, t) == t.file = s.file /\ t.st = s.st
Finish(s, t) == /\ s.st = "runs" /\ t.file = s.file
                /\ t.st \in {"ok", "fails", "killed"}
                /\ t.st # "killed" => ~t.extra
Step(edits, s, t) == s.st = "runs" /\ (EditOne(edits, s, t) \/ Elsewhere(s, t) \/ Finish(s, t))

(* Files are edited in order: what is not yet reached is as it was.          *)
InOrder(same, s) == \A i, j \in DOMAIN s.file : i < j /\ s.file[j] = "new" => s.file[i] = "new" \/ same[i]
Complete(edits, same, s) == s.st = "ok" /\ edits => \A i \in DOMAIN s.file : s.file[i] = "new" \/ same[i]
=============================================================================
