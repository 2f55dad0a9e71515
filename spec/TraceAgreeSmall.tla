--------------------------- MODULE TraceAgreeSmall --------------------------
EXTENDS NativeInt, TraceRun
INSTANCE Agreement WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd
Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
