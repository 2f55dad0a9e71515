------------------------------- MODULE NatFix -------------------------------
(* FixSem over TLC's native integers (small scopes, exhaustive checking).  *)
EXTENDS NativeInt, Sequences
INSTANCE FixSem WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd
=============================================================================
