----------------------------- MODULE TraceFmts ------------------------------
(* Conformance of recorded result formats (arbitrary precision).            *)
EXTENDS BigInt, TraceRun
INSTANCE FmtVerdicts WITH NOf <- BigOf, NAdd <- BigAdd, NSub <- BigSub, NMul <- BigMul,
    NNeg <- BigNeg, NCmp <- BigCmp, NShl <- BigShl, NFlr <- BigFloorShr,
    NLow <- BigLow, NOdd <- BigOdd
Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
