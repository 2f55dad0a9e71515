----------------------------- MODULE TraceArrays ----------------------------
(***************************************************************************)
(* Conformance of recorded calls of the array helpers.  Clauses:           *)
(*   refused   the call failed                                             *)
(*   value     other bits, or another number of bits                       *)
(*   missed    a difference was not reported                               *)
(*   spurious  an error was reported for equal arrays                      *)
(*   checker   reported to another checker than the given one              *)
(* For comparisons, a simulation that stops has reported the error.        *)
(***************************************************************************)
EXTENDS Arrays, TraceRun

Verdict(e) ==
    IF e.op = "check"
    THEN LET reported == e.st # "ok" \/ e.failures > 0
             due      == Differ(e.got, e.expected)
         IN (IF due /\ ~reported THEN {"missed"} ELSE {})
            \cup (IF reported /\ ~due THEN {"spurious"} ELSE {})
            \cup (IF e.st = "ok" /\ e.failures > 0 /\ e.who # e.checker THEN {"checker"} ELSE {})
    ELSE IF e.st # "ok" THEN {"refused"}
    ELSE LET right ==
             CASE e.op = "flatten"   -> e.out = Flatten(e.x)
               [] e.op = "numel"     -> e.out = Numel(e.x, e.w)
               [] e.op = "unflatten" -> e.out = Unflatten(e.v, e.w, e.n)
         IN IF right THEN {} ELSE {"value"}

Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
