-------------------------- MODULE TraceCallsSmall ---------------------------
(* Conformance of recorded calls on small numbers, over native integers     *)
(* (fast: used for exhaustive enumerations of small formats).               *)
EXTENDS NativeInt, TraceRun
INSTANCE Verdicts WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd
Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
