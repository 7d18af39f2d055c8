----------------------------- MODULE TraceCrash -----------------------------
(* Validation of what was seen of files while the standardize command ran,    *)
(* was made to fail, or was killed.  A case is a command (see Standardize)    *)
(* and [edits : its files may be edited, files : of every step, the contents  *)
(* seen of it: [texts, marks]; the first is what it was, a mark "new" or      *)
(* "other" is given for those too large to be computed here ("?" if not),     *)
(* snaps : Seq of [file : which content every file has, extra : other files   *)
(* exist, st], kept : modes and links are as they were, rewrote : a file was  *)
(* changed without being replaced, leave : removing a file was made to fail]. *)
EXTENDS Standardize, Json, TLC, IOUtils
A == INSTANCE AtomicEdit
Cases == ndJsonDeserialize(IOEnv.TRACE)

Class(c, rs, i, k) ==
  IF k = 1 THEN "old"
  ELSE LET m == c.files[i].marks[k]
       IN IF m # "?" THEN m
          ELSE IF rs[i].k = "done" /\ c.files[i].texts[k] = rs[i].text THEN "new" ELSE "other"
Small(c, i) == \A k \in DOMAIN c.files[i].marks : c.files[i].marks[k] = "?"
See(c, rs, s) == [file |-> [i \in DOMAIN s.file |-> Class(c, rs, i, s.file[i])],
                  extra |-> s.extra /\ ~(c.leave /\ s.st # "runs"), st |-> s.st]
Unchanged(c, rs) == [i \in DOMAIN c.steps |->
  IF Small(c, i) THEN rs[i].k = "done" /\ ~Changed([c EXCEPT !.mode = "inplace"], c.steps[i], rs[i]) ELSE c.files[i].same]

Verdict(c) ==
  LET rs == [i \in DOMAIN c.steps |-> IF Small(c, i) THEN StepOf(c, c.steps[i]) ELSE [k |-> "big", text |-> <<>>]]
      ss == [j \in DOMAIN c.snaps |-> See(c, rs, c.snaps[j])]
      sm == Unchanged(c, rs)
      at == {j \in DOMAIN ss : ~A!Whole(ss[j])}
      z  == ss[Len(ss)]
  IN IF at # {} THEN "a file is neither as it was nor standardized"
     ELSE IF c.rewrote THEN "a file is overwritten, not replaced"
     ELSE IF ss[1] # A!AllOld(Len(c.steps)) THEN "not a start"
     ELSE IF \E j \in 1..(Len(ss) - 1) : ~A!Step(c.edits, ss[j], ss[j + 1])
       THEN (IF z.st \in {"ok", "fails"} /\ z.extra THEN "other files are left behind" ELSE "not an atomic edit")
     ELSE IF \E j \in DOMAIN ss : ~A!InOrder(sm, ss[j]) THEN "a later file is edited before an earlier one"
     ELSE IF ~A!Complete(c.edits, sm, z) THEN "a file is not standardized"
     ELSE IF ~c.kept THEN "permissions or links are lost"
     ELSE "ok"

VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases)
        /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN v = "ok" \/ PrintT(<<"BAD", i + 1, v>>)
Spec == Init /\ [][Next]_i
=============================================================================
