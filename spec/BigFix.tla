------------------------------- MODULE BigFix -------------------------------
(* FixSem over arbitrary-precision integers (recorded traces).             *)
EXTENDS BigInt
INSTANCE FixSem WITH NOf <- BigOf, NAdd <- BigAdd, NSub <- BigSub, NMul <- BigMul,
    NNeg <- BigNeg, NCmp <- BigCmp, NShl <- BigShl, NFlr <- BigFloorShr,
    NLow <- BigLow, NOdd <- BigOdd
=============================================================================
