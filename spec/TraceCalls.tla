----------------------------- MODULE TraceCalls -----------------------------
(* Conformance of recorded calls, over arbitrary-precision integers.        *)
EXTENDS BigInt, TraceRun
INSTANCE Verdicts WITH NOf <- BigOf, NAdd <- BigAdd, NSub <- BigSub, NMul <- BigMul,
    NNeg <- BigNeg, NCmp <- BigCmp, NShl <- BigShl, NFlr <- BigFloorShr,
    NLow <- BigLow, NOdd <- BigOdd
Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
