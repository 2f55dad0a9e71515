------------------------ MODULE TraceRequests ------------------------
(* Conformance of the acceptance and refusal of requests.                   *)
EXTENDS BigInt, TraceRun
INSTANCE Requests WITH NOf <- BigOf, NAdd <- BigAdd, NSub <- BigSub, NMul <- BigMul,
    NNeg <- BigNeg, NCmp <- BigCmp, NShl <- BigShl, NFlr <- BigFloorShr,
    NLow <- BigLow, NOdd <- BigOdd
Next == Step(RequestVerdict)
Spec == Init /\ [][Next]_vars
=============================================================================
