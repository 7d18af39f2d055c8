------------------------------ MODULE ApiHist ------------------------------
(***************************************************************************)
(* Histories of library calls in one process.                              *)
(*                                                                         *)
(* The only state that calls share is the field size limit.  What a call   *)
(* returns is a function of the call and, where it reads data, of the      *)
(* limit in force when it began to read.  Objects (readers, writers,       *)
(* detectors) are used step by step; what step n of an object returns is a *)
(* function of its kind, n, and the limit in force when it was begun.      *)
(*                                                                         *)
(* A result is denoted by [k : call or kind, g : limit that governs it,    *)
(* n : step].                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Limits,        \* the values the limit takes (indices)
          Default        \* the one in force at the beginning

NotBegun == 0
Start == [limit |-> Default, objs |-> <<>>]

(* ---- [st : state after, r : what is returned]                           *)
SetLimit(st, v) == [st |-> [st EXCEPT !.limit = v], r |-> [k |-> 0, g |-> st.limit, n |-> 0]]
GetLimit(st)    == [st |-> st, r |-> [k |-> 0, g |-> st.limit, n |-> 0]]
Call(st, k)     == [st |-> st, r |-> [k |-> k, g |-> st.limit, n |-> 1]]
New(st, k)      == [st |-> [st EXCEPT !.objs = Append(@, [k |-> k, g |-> NotBegun, n |-> 0])],
                    r |-> [k |-> k, g |-> st.limit, n |-> 0]]
Begun(st, o)    == IF st.objs[o].g = NotBegun THEN st.limit ELSE st.objs[o].g
Begin(st, o)    == [st |-> [st EXCEPT !.objs[o].g = Begun(st, o)], r |-> [k |-> 0, g |-> 0, n |-> 0]]
Ask(st, o)      == LET g == Begun(st, o)
                       m == st.objs[o].n + 1
                   IN [st |-> [st EXCEPT !.objs[o].g = g, !.objs[o].n = m],
                       r |-> [k |-> st.objs[o].k, g |-> g, n |-> m]]

(* An event as recorded or as generated: op, a (its argument).              *)
Do(st, op, a) == CASE op = "set"   -> SetLimit(st, a)
                   [] op = "bad"   -> GetLimit(st)      \* rejected without effect
                   [] op = "get"   -> GetLimit(st)
                   [] op = "call"  -> Call(st, a)
                   [] op = "new"   -> New(st, a)
                   [] op = "begin" -> Begin(st, a)
                   [] op = "ask"   -> Ask(st, a)
=============================================================================
