------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* The memory of a program that uses the package: a store of live values   *)
(* (operands, formats, objects and results of calls), one per handle.      *)
(*                                                                         *)
(* A value is a record [m, v]: what it is (kind, representation, shape),   *)
(* and its parts (elements of an array, fields of a format).               *)
(*                                                                         *)
(* Calls are functions of the values of their arguments and create new     *)
(* values; only a poke (an in-place modification by the program) changes a *)
(* value, and changes only the one it is applied to.                       *)
(*                                                                         *)
(* Steps                                                                   *)
(*   new    the program creates the values new                             *)
(*   call   a call returned the values new; ref is what the same call with *)
(*          the same arguments returns in a process that did nothing else  *)
(*          (w, rw: whether a saturation warning was emitted); lists: for  *)
(*          each argument that is a list made for this call, the handles   *)
(*          of its elements before (was) and after the call (now)          *)
(*   poke   part i of the value at handle h becomes x                      *)
(* Every step also holds what was observed: seen, the handles whose value  *)
(* differs from the one before, with their values.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

StepNew(step) == IF step.do = "poke" THEN <<>> ELSE step.new

After(store, step) ==
    CASE step.do \in {"new", "call"} -> store \o step.new
      [] step.do = "poke" -> [store EXCEPT ![step.h].v[step.i] = step.x]

\* Values seen after the step, for the handles that existed before it.
Seen(store, step) ==
    [h \in 1..Len(store) |->
        IF \E k \in 1..Len(step.seen) : step.seen[k].h = h
        THEN LET k == CHOOSE k \in 1..Len(step.seen) : step.seen[k].h = h
             IN [m |-> step.seen[k].m, v |-> step.seen[k].v]
        ELSE store[h]]

(* Verdict on one step; clauses:                                           *)
(*   memory   the result of a call is not that of its arguments alone      *)
(*   changed  a call changed an existing value, or a list passed to it     *)
(*   shared   a poke changed another value, or another part of its value   *)
StepVerdict(store, step) ==
    LET old == SubSeq(After(store, step), 1, Len(store))
    IN (IF Seen(store, step) = old THEN {}
        ELSE IF step.do = "poke" THEN {"shared"} ELSE {"changed"})
       \cup
       (IF step.do = "call" /\ \E k \in 1..Len(step.lists) : step.lists[k].was # step.lists[k].now THEN {"changed"} ELSE {})
       \cup
       (IF step.do = "call" /\ (step.new # step.ref \/ step.w # step.rw) THEN {"memory"} ELSE {})

RECURSIVE Run(_, _)
\* After a bad step the observed values are adopted.
Run(store, steps) ==
    IF steps = <<>> THEN {}
    ELSE LET s == Head(steps)
         IN StepVerdict(store, s) \cup Run(Seen(store, s) \o StepNew(s), Tail(steps))
=============================================================================
