---------------------------- MODULE TraceMachine ----------------------------
(* Conformance of recorded histories: one per line, steps h.                *)
EXTENDS Machine, TraceRun
Verdict(e) == IF e.st # "ok" THEN {"refused"} ELSE Run(<<>>, e.h)
Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
