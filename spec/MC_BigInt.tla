----------------------------- MODULE MC_BigInt ------------------------------
(* Exhaustive check of BigInt against native integers, with tiny limbs.    *)
EXTENDS BigInt, TLC

CONSTANTS Span, KMax
VARIABLES x, y

Init == x \in -Span..Span /\ y \in -Span..Span
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>

X == BigOf(x)
Y == BigOf(y)
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

RoundTrip   == IsBig(X) /\ BigToInt(X) = x
AddOK       == BigAdd(X, Y) = BigOf(x + y)
SubOK       == BigSub(X, Y) = BigOf(x - y)
MulOK       == BigMul(X, Y) = BigOf(x * y)
CmpOK       == BigCmp(X, Y) = Sgn(x - y)
NegAbsOK    == BigNeg(X) = BigOf(-x) /\ BigAbs(X) = BigOf(IF x < 0 THEN -x ELSE x)
OddOK       == BigOdd(X) <=> (x % 2 = 1)
ShiftOK     == \A k \in 0..KMax :
                  /\ BigShl(X, k) = BigOf(x * 2^k)
                  /\ BigFloorShr(X, k) = BigOf(x \div 2^k)
                  /\ BigLow(X, k) = BigOf(x % 2^k)
                  /\ BigPow2(k) = BigOf(2^k)
=============================================================================
