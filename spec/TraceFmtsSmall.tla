--------------------------- MODULE TraceFmtsSmall ---------------------------
(* The same over native integers, for small formats.                        *)
EXTENDS NativeInt, TraceRun
INSTANCE FmtVerdicts WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd
Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
