---------------------------- MODULE SharedLimit ----------------------------
(***************************************************************************)
(* The field size limit as a shared variable.  Threads run detections,     *)
(* set the limit, and read data.  Three designs of a detection, which must *)
(* parse without limit:                                                    *)
(*   "explicit"  the parser is given the limit to use (as implemented);    *)
(*   "swap"      the shared limit is raised, and put back afterwards;      *)
(*   "leaky"     as "swap", but not put back if the detection fails.       *)
(* "leaky" already goes wrong in one thread; "swap" only with two.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Design, Values, Unlimited, MaxOps
VARIABLES limit,     \* the shared variable
          user,      \* ghost: the value last set by a user
          pc,        \* [Threads -> where it is]
          save,      \* [Threads -> the value a swap remembers]
          parsed,    \* [Threads -> the limit its detection parsed with, or 0]
          begun,     \* [Threads -> <<limit a reading captured, user limit then>> or <<>>]
          seen,      \* [Threads -> <<limit a user read, user limit then>> or <<>>]
          ops
vars == <<limit, user, pc, save, parsed, begun, seen, ops>>
Init == /\ limit \in Values /\ user = limit
        /\ pc = [t \in Threads |-> "idle"] /\ save = [t \in Threads |-> 0] /\ parsed = [t \in Threads |-> 0]
        /\ begun = [t \in Threads |-> <<>>] /\ seen = [t \in Threads |-> <<>>]
        /\ ops = 0
Op == ops < MaxOps /\ ops' = ops + 1
Set(t) == /\ pc[t] = "idle" /\ Op
          /\ \E v \in Values : limit' = v /\ user' = v
          /\ UNCHANGED <<pc, save, parsed, begun, seen>>
Get(t) == /\ pc[t] = "idle" /\ Op
          /\ seen' = [seen EXCEPT ![t] = <<limit, user>>]
          /\ UNCHANGED <<limit, user, pc, save, parsed, begun>>
Read(t) == /\ pc[t] = "idle" /\ Op
           /\ begun' = [begun EXCEPT ![t] = <<limit, user>>]
           /\ UNCHANGED <<limit, user, pc, save, parsed, seen>>
Detect(t) == /\ pc[t] = "idle" /\ Op
             /\ pc' = [pc EXCEPT ![t] = IF Design = "explicit" THEN "parse" ELSE "raise"]
             /\ save' = [save EXCEPT ![t] = limit]
             /\ UNCHANGED <<limit, user, parsed, begun, seen>>
Raise(t) == /\ pc[t] = "raise"
            /\ limit' = Unlimited /\ pc' = [pc EXCEPT ![t] = "parse"]
            /\ UNCHANGED <<user, save, parsed, begun, seen, ops>>
Parse(t) == /\ pc[t] = "parse"
            /\ parsed' = [parsed EXCEPT ![t] = IF Design = "explicit" THEN Unlimited ELSE limit]
            /\ pc' \in {[pc EXCEPT ![t] = IF Design = "explicit" THEN "idle" ELSE "restore"],
                        [pc EXCEPT ![t] = IF Design = "swap" THEN "restore" ELSE "idle"]}     \* the second: it failed
            /\ UNCHANGED <<limit, user, save, begun, seen, ops>>
Restore(t) == /\ pc[t] = "restore"
              /\ limit' = save[t] /\ pc' = [pc EXCEPT ![t] = "idle"]
              /\ UNCHANGED <<user, save, parsed, begun, seen, ops>>
Next == \E t \in Threads : Set(t) \/ Get(t) \/ Read(t) \/ Detect(t) \/ Raise(t) \/ Parse(t) \/ Restore(t)
Spec == Init /\ [][Next]_vars

(* When no detection is running the limit is the user's.                     *)
Preserved == (\A t \in Threads : pc[t] = "idle") => limit = user
(* Nobody sees another limit than the user's; detection sees none.           *)
Unseen == \A t \in Threads : /\ begun[t] # <<>> => begun[t][1] = begun[t][2]
                             /\ seen[t] # <<>> => seen[t][1] = seen[t][2]
DetectUnlimited == \A t \in Threads : parsed[t] \in {0, Unlimited}
=============================================================================
