------------------------ MODULE TraceRequestsSmall ------------------------
(* Conformance of the acceptance and refusal of requests.                   *)
EXTENDS NativeInt, TraceRun
INSTANCE Requests WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd
Next == Step(RequestVerdict)
Spec == Init /\ [][Next]_vars
=============================================================================
