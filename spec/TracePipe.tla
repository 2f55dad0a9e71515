------------------------------ MODULE TracePipe ------------------------------
(* Conformance of recorded component histories.                             *)
EXTENDS BigInt, TraceRun
INSTANCE PipeVerdicts WITH NOf <- BigOf, NAdd <- BigAdd, NSub <- BigSub, NMul <- BigMul,
    NNeg <- BigNeg, NCmp <- BigCmp, NShl <- BigShl, NFlr <- BigFloorShr,
    NLow <- BigLow, NOdd <- BigOdd
Next == Step(PipeVerdict)
Spec == Init /\ [][Next]_vars
=============================================================================
