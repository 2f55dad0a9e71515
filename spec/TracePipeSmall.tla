------------------------------ MODULE TracePipeSmall ------------------------------
(* Conformance of recorded component histories, small numbers.                             *)
EXTENDS NativeInt, TraceRun
INSTANCE PipeVerdicts WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr,
    NLow <- ILow, NOdd <- IOdd
Next == Step(PipeVerdict)
Spec == Init /\ [][Next]_vars
=============================================================================
