------------------------------ MODULE InPlace -------------------------------
(***************************************************************************)
(* The protocol of editing in place, on a file system: a temporary file is *)
(* written beside the file in pieces, compared, given the mode of the file *)
(* and renamed over it.  Any step may fail, and the program may be killed  *)
(* between any two.  Other designs, for comparison: "direct" writes the    *)
(* file itself, "copy" copies the temporary file over it (what moving      *)
(* across file systems does), "leave" does not clean up, "nomode" forgets  *)
(* the mode.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Design, Pieces, NFiles
VARIABLES file, tmp, mode, pc, cur, wrote, st, equal
vars == <<file, tmp, mode, pc, cur, wrote, st, equal>>
Names == 1..NFiles
(* contents: "old", "new", "part" or "absent"                                *)
Init == /\ file = [i \in Names |-> "old"] /\ tmp = "absent" /\ mode = [i \in Names |-> "its"]
        /\ pc = "open" /\ cur = 1 /\ wrote = 0 /\ st = "runs"
        /\ equal \in [Names -> BOOLEAN]     (* standardizing changes nothing *)
Running == st = "runs" /\ cur <= NFiles
Goto(l) == pc' = l
Open == /\ Running /\ pc = "open"
        /\ IF Design = "direct" THEN file' = [file EXCEPT ![cur] = "part"] /\ UNCHANGED tmp
           ELSE tmp' = "part" /\ UNCHANGED file
        /\ wrote' = 0 /\ Goto("write") /\ UNCHANGED <<mode, cur, st, equal>>
Write == /\ Running /\ pc = "write"
         /\ wrote' = wrote + 1
         /\ LET all == wrote + 1 = Pieces
                c == IF all THEN "new" ELSE "part"
            IN /\ IF Design = "direct" THEN file' = [file EXCEPT ![cur] = c] /\ UNCHANGED tmp
                  ELSE tmp' = c /\ UNCHANGED file
               /\ Goto(IF ~all THEN "write" ELSE IF Design = "direct" THEN "next" ELSE "compare")
         /\ UNCHANGED <<mode, cur, st, equal>>
Compare == /\ Running /\ pc = "compare" /\ Goto(IF equal[cur] THEN "unlink" ELSE "chmod")
           /\ UNCHANGED <<file, tmp, mode, cur, wrote, st, equal>>
Unlink == /\ Running /\ pc = "unlink" /\ tmp' = "absent" /\ Goto("next")
          /\ UNCHANGED <<file, mode, cur, wrote, st, equal>>
Chmod == /\ Running /\ pc = "chmod" /\ Goto(IF Design = "copy" THEN "copy" ELSE "replace")
         /\ UNCHANGED <<file, tmp, mode, cur, wrote, st, equal>>
Replace == /\ Running /\ pc = "replace" /\ file' = [file EXCEPT ![cur] = tmp] /\ tmp' = "absent"
           /\ mode' = IF Design = "nomode" THEN [mode EXCEPT ![cur] = "private"] ELSE mode
           /\ Goto("next") /\ UNCHANGED <<cur, wrote, st, equal>>
Copy == /\ Running /\ pc = "copy"
        /\ file' = [file EXCEPT ![cur] = IF file[cur] = "old" THEN "part" ELSE "new"]
        /\ Goto(IF file[cur] = "old" THEN "copy" ELSE "unlink") /\ UNCHANGED <<tmp, mode, cur, wrote, st, equal>>
NextOne == /\ Running /\ pc = "next" /\ cur' = cur + 1 /\ Goto("open")
           /\ UNCHANGED <<file, tmp, mode, wrote, st, equal>>
Finish == /\ st = "runs" /\ cur = NFiles + 1 /\ st' = "ok" /\ UNCHANGED <<file, tmp, mode, pc, cur, wrote, equal>>
(* The step that is next fails; its cleanup does not.                        *)
Fail == /\ Running /\ st' = "fails"
        /\ tmp' = IF Design = "leave" THEN tmp ELSE "absent"
        /\ UNCHANGED <<file, mode, pc, cur, wrote, equal>>
Kill == /\ st = "runs" /\ st' = "killed" /\ UNCHANGED <<file, tmp, mode, pc, cur, wrote, equal>>
Next == Open \/ Write \/ Compare \/ Unlink \/ Chmod \/ Replace \/ Copy \/ NextOne \/ Finish \/ Fail \/ Kill
Spec == Init /\ [][Next]_vars

A == INSTANCE AtomicEdit
Seen == [file |-> file, extra |-> tmp # "absent", st |-> st]
Intact == A!Whole(Seen)
Clean == st \in {"ok", "fails"} => tmp = "absent"
Ordered == A!InOrder(equal, Seen) /\ A!Complete(TRUE, equal, Seen)
ModeKept == \A i \in Names : mode[i] = "its"
Unneeded == \A i \in Names : equal[i] => file[i] = "old"
(* What is seen of it is a behaviour of AtomicEdit.                          *)
Refines == [][A!Step(TRUE, Seen, Seen')]_Seen
=============================================================================
