------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary-precision signed integers.                                    *)
(*                                                                         *)
(* TLC's integers are 32-bit Java ints, while fixed-point formats in       *)
(* en_cl_fix have no width limit.  A number is a record                    *)
(*      [s |-> -1, 0 or 1,  m |-> magnitude]                               *)
(* whose magnitude is a little-endian sequence of limbs in 0..Base-1       *)
(* without leading (i.e. trailing in the sequence) zero limbs.  This is    *)
(* also the encoding used in the recorded traces.                          *)
(*                                                                         *)
(* Base = 2^LimbBits.  The traces use LimbBits = 15 (so that the product   *)
(* of two limbs plus carries fits in 31 bits).  MC_BigInt checks every     *)
(* operator against TLC's native integers, exhaustively, for tiny limbs    *)
(* (so that every carry chain is exercised).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT LimbBits

Base == 2^LimbBits

----------------------------------------------------------------------------
(* Magnitudes *)

RECURSIVE Trim(_)
Trim(m) == IF m = <<>> THEN m
           ELSE IF m[Len(m)] # 0 THEN m
           ELSE Trim(SubSeq(m, 1, Len(m) - 1))

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

MaxI(a, b) == IF a >= b THEN a ELSE b

MagCmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET RECURSIVE C(_)
             C(i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE C(i - 1)
         IN C(Len(a))

MagAdd(a, b) ==
    LET n == MaxI(Len(a), Len(b))
        RECURSIVE C(_, _, _)
        C(i, c, acc) ==
            IF i > n THEN (IF c = 0 THEN acc ELSE Append(acc, c))
            ELSE LET t == Limb(a, i) + Limb(b, i) + c
                 IN C(i + 1, t \div Base, Append(acc, t % Base))
    IN C(1, 0, <<>>)

\* Requires a >= b.
MagSub(a, b) ==
    LET n == Len(a)
        RECURSIVE C(_, _, _)
        C(i, c, acc) ==
            IF i > n THEN acc
            ELSE LET t == a[i] - Limb(b, i) - c
                 IN IF t < 0 THEN C(i + 1, 1, Append(acc, t + Base))
                             ELSE C(i + 1, 0, Append(acc, t))
    IN Trim(C(1, 0, <<>>))

\* m * k + c0 for a small k, c0 < Base.
MagMulSmall(m, k, c0) ==
    IF k = 0 THEN (IF c0 = 0 THEN <<>> ELSE <<c0>>) ELSE
    LET n == Len(m)
        RECURSIVE C(_, _, _)
        C(i, c, acc) ==
            IF i > n THEN (IF c = 0 THEN acc ELSE Append(acc, c))
            ELSE LET t == m[i] * k + c
                 IN C(i + 1, t \div Base, Append(acc, t % Base))
    IN C(1, c0, <<>>)

ZeroLimbs(n) == [i \in 1..n |-> 0]

MagMul(a, b) ==
    LET RECURSIVE C(_, _)
        C(i, acc) ==
            IF i > Len(b) THEN acc
            ELSE C(i + 1,
                   IF b[i] = 0 THEN acc
                   ELSE MagAdd(acc, ZeroLimbs(i - 1) \o MagMulSmall(a, b[i], 0)))
    IN IF a = <<>> THEN <<>> ELSE C(1, <<>>)

\* m * 2^k
MagShl(m, k) ==
    IF m = <<>> THEN m
    ELSE ZeroLimbs(k \div LimbBits) \o MagMulSmall(m, 2^(k % LimbBits), 0)

\* floor(m / 2^k)
MagShr(m, k) ==
    LET q == k \div LimbBits
        r == k % LimbBits
    IN IF q >= Len(m) THEN <<>>
       ELSE IF r = 0 THEN SubSeq(m, q + 1, Len(m))
       ELSE LET p  == 2^r
                pc == 2^(LimbBits - r)
            IN Trim([i \in 1..(Len(m) - q) |->
                        (m[i + q] \div p) + (Limb(m, i + q + 1) % p) * pc])

\* m mod 2^k
MagLow(m, k) ==
    LET q == k \div LimbBits
        r == k % LimbBits
    IN IF q >= Len(m) THEN m
       ELSE Trim(SubSeq(m, 1, q) \o <<m[q + 1] % 2^r>>)

\* Is m a multiple of 2^k?
MagDivides(m, k) == MagLow(m, k) = <<>>

MagPow2(k) == ZeroLimbs(k \div LimbBits) \o <<2^(k % LimbBits)>>

----------------------------------------------------------------------------
(* Signed numbers *)

Big(s, m) == IF m = <<>> THEN [s |-> 0, m |-> <<>>] ELSE [s |-> s, m |-> m]

BigZero == [s |-> 0, m |-> <<>>]
BigOne  == [s |-> 1, m |-> <<1>>]

\* Well-formed (canonical) number: equality of numbers is equality of records.
IsBig(x) == /\ x.s \in {-1, 0, 1}
            /\ (x.s = 0) <=> (x.m = <<>>)
            /\ \A i \in 1..Len(x.m) : x.m[i] \in 0..(Base - 1)
            /\ x.m # <<>> => x.m[Len(x.m)] # 0

BigNeg(x) == [s |-> -x.s, m |-> x.m]
BigAbs(x) == [s |-> IF x.s = 0 THEN 0 ELSE 1, m |-> x.m]

BigAdd(x, y) ==
    IF x.s = 0 THEN y
    ELSE IF y.s = 0 THEN x
    ELSE IF x.s = y.s THEN [s |-> x.s, m |-> MagAdd(x.m, y.m)]
    ELSE LET c == MagCmp(x.m, y.m)
         IN IF c = 0 THEN BigZero
            ELSE IF c > 0 THEN [s |-> x.s, m |-> MagSub(x.m, y.m)]
            ELSE [s |-> y.s, m |-> MagSub(y.m, x.m)]

BigSub(x, y) == BigAdd(x, BigNeg(y))

BigMul(x, y) == Big(x.s * y.s, MagMul(x.m, y.m))

BigCmp(x, y) ==
    IF x.s # y.s THEN (IF x.s < y.s THEN -1 ELSE 1)
    ELSE x.s * MagCmp(x.m, y.m)

BigShl(x, k) == [s |-> x.s, m |-> MagShl(x.m, k)]

\* floor(x / 2^k), rounding towards -infinity.
BigFloorShr(x, k) ==
    IF x.s >= 0 THEN Big(1, MagShr(x.m, k))
    ELSE LET q == MagShr(x.m, k)
         IN Big(-1, IF MagDivides(x.m, k) THEN q ELSE MagAdd(q, <<1>>))

\* x mod 2^k, in 0 .. 2^k-1 (also for negative x).
BigLow(x, k) ==
    LET l == MagLow(x.m, k)
    IN IF x.s >= 0 \/ l = <<>> THEN Big(1, l)
       ELSE Big(1, MagSub(MagPow2(k), l))

BigPow2(k) == [s |-> 1, m |-> MagPow2(k)]

BigOdd(x) == x.m # <<>> /\ x.m[1] % 2 = 1

\* From a native integer (|n| < 2^31).
RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatMag(n \div Base)
BigOf(n) == IF n >= 0 THEN Big(1, NatMag(n)) ELSE Big(-1, NatMag(-n))

\* To a native integer (only meaningful when it fits).
RECURSIVE MagNat(_)
MagNat(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * MagNat(Tail(m))
BigToInt(x) == x.s * MagNat(x.m)

=============================================================================
