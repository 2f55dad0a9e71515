------------------------------- MODULE FixSem -------------------------------
(***************************************************************************)
(* Semantics of Enclustra en_cl_fix fixed-point arithmetic.                *)
(*                                                                         *)
(* A format is a record [S, I, F] (S sign bits, I integer bits, F fraction *)
(* bits; I and F may be negative).  A value of format f is represented by  *)
(* its integer mantissa m and denotes the number  m * 2^(-f.F).            *)
(*                                                                         *)
(* The module is parameterised by the integers it computes with, so that   *)
(* the same definitions are model checked exhaustively over TLC's native   *)
(* integers (MC_* modules) and evaluated over arbitrary-precision integers *)
(* on traces recorded from the real code (Trace* modules).                 *)
(*                                                                         *)
(* The definitions are declarative ("nearest multiple, ties to even",      *)
(* "reduce modulo 2^width"), not transcriptions of the implementation      *)
(* (which adds offsets and truncates).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
    NOf(_),         \* native integer -> number
    NAdd(_, _), NSub(_, _), NMul(_, _), NNeg(_),
    NCmp(_, _),     \* -1, 0, 1
    NShl(_, _),     \* n * 2^k
    NFlr(_, _),     \* floor(n / 2^k)
    NLow(_, _),     \* n mod 2^k
    NOdd(_)         \* n is odd

NZero == NOf(0)
NOne  == NOf(1)
NPow2(k) == NShl(NOne, k)
NLt(x, y) == NCmp(x, y) < 0
NLe(x, y) == NCmp(x, y) <= 0
NMin(x, y) == IF NLe(x, y) THEN x ELSE y
NMax(x, y) == IF NLe(x, y) THEN y ELSE x

IMax(a, b) == IF a >= b THEN a ELSE b
IMin(a, b) == IF a <= b THEN a ELSE b

----------------------------------------------------------------------------
(* Modes: the numbering of the Python enumerations and VHDL types.         *)

Trunc == 0  NonSymPos == 1  NonSymNeg == 2  SymInf == 3
SymZero == 4  ConvEven == 5  ConvOdd == 6
RoundModes == 0..6
RoundNames == <<"Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s",
                "SymZero_s", "ConvEven_s", "ConvOdd_s">>

SatNone == 0  SatWarnOnly == 1  SatSat == 2  SatBoth == 3
SatModes == 0..3
SatNames == <<"None_s", "Warn_s", "Sat_s", "SatWarn_s">>

Warns(sat) == sat \in {SatWarnOnly, SatBoth}
Clips(sat) == sat \in {SatSat, SatBoth}

----------------------------------------------------------------------------
(* Formats                                                                 *)

Fmt(s, i, f) == [S |-> s, I |-> i, F |-> f]
ValidFmt(f) == f.S \in {0, 1} /\ f.I + f.F >= 0
Width(f) == f.S + f.I + f.F
NonNull(f) == ValidFmt(f) /\ Width(f) > 0

MaxM(f) == NSub(NPow2(f.I + f.F), NOne)
MinM(f) == IF f.S = 1 THEN NNeg(NPow2(f.I + f.F)) ELSE NZero
InRangeM(m, f) == NLe(MinM(f), m) /\ NLe(m, MaxM(f))

\* More than 53 bits do not fit a double's significand.
NarrowLimit == 53
IsWide(f) == Width(f) > NarrowLimit

\* Compare m1*2^-F1 with m2*2^-F2.
ValCmp(m1, F1, m2, F2) ==
    LET F == IMax(F1, F2) IN NCmp(NShl(m1, F - F1), NShl(m2, F - F2))

\* The number m*2^-F is a value of format f.
Represents(f, m, F) ==
    IF F <= f.F THEN InRangeM(NShl(m, f.F - F), f)
    ELSE NLow(m, F - f.F) = NZero /\ InRangeM(NFlr(m, F - f.F), f)

----------------------------------------------------------------------------
(* Result formats (the formulas that both implementations use; MC_Formats  *)
(* checks that they are sufficient and minimal).                           *)

Union(a, b) == Fmt(IMax(a.S, b.S), IMax(a.I, b.I), IMax(a.F, b.F))

RECURSIVE UnionAll(_)
UnionAll(fs) == IF Len(fs) = 1 THEN fs[1] ELSE Union(fs[1], UnionAll(Tail(fs)))

AddFmt(a, b) ==
    LET gmax == IF IMin(a.I, b.I) + IMin(a.F, b.F) > 0 THEN 1 ELSE 0
        gmin == IF a.S = 1 /\ b.S = 1 THEN 1 ELSE 0
    IN Fmt(IMax(a.S, b.S), IMax(a.I, b.I) + IMax(gmax, gmin), IMax(a.F, b.F))

SubFmt(a, b) ==
    LET rmaxI == IF b.S = 0 THEN a.I
                 ELSE IMax(a.I, b.I) + (IF IMin(a.I, b.I) >= -a.F THEN 1 ELSE 0)
        F == IMax(a.F, b.F)
    IN IF a.S = 0
       THEN IF Width(b) = 1 /\ b.S = 1 THEN Fmt(0, rmaxI, F)
            ELSE IF b.I = -b.F + 1 THEN Fmt(1, IMax(rmaxI, -b.F), F)
            ELSE Fmt(1, IMax(rmaxI, b.I), F)
       ELSE LET rminI == IMax(a.I, b.I) + (IF IMin(a.I, b.I) > -b.F THEN 1 ELSE 0)
            IN Fmt(1, IMax(rmaxI, rminI), F)

AddSubFmt(a, b) == Union(AddFmt(a, b), SubFmt(a, b))

NegFmt(a) == IF a.S = 0 /\ Width(a) = 1 THEN Fmt(1, a.I - 1, a.F)
             ELSE Fmt(1, a.I + a.S, a.F)

AbsFmt(a) == Union(a, NegFmt(a))

MultFmt(a, b) ==
    LET rmaxI == IF a.S = 1 /\ b.S = 1 THEN a.I + b.I + 1
                 ELSE IF a.I + a.F <= 1 \/ b.I + b.F <= 1 THEN a.I + b.I - 1
                 ELSE a.I + b.I
        I == IF a.S = 0 /\ b.S = 1 THEN IMax(rmaxI, NegFmt(a).I + b.I)
             ELSE IF a.S = 1 /\ b.S = 0 THEN IMax(rmaxI, a.I + NegFmt(b).I)
             ELSE rmaxI
        S == IF a.S = 1 /\ Width(a) = 1 /\ b.S = 1 /\ Width(b) = 1 THEN 0
             ELSE IMax(a.S, b.S)
    IN Fmt(S, I, a.F + b.F)

ShiftFmt(a, lo, hi) == Fmt(a.S, a.I + hi, a.F - lo)

RoundFmt(a, rF, rnd) ==
    LET I0 == IF rF >= a.F \/ rnd = Trunc THEN a.I ELSE a.I + 1
        I  == IF a.S + I0 + rF < 1 THEN 1 - a.S - rF ELSE I0
    IN Fmt(a.S, I, rF)

----------------------------------------------------------------------------
(* Rounding: the number m*2^-aF as a multiple of 2^-rF.                    *)

RoundM(m, aF, rF, rnd) ==
    IF rF >= aF THEN NShl(m, rF - aF)
    ELSE LET d    == aF - rF
             down == NFlr(m, d)
         IN IF rnd = Trunc THEN down
            ELSE LET up == NAdd(down, NOne)
                     c  == NCmp(NLow(m, d), NPow2(d - 1))  \* distance vs. half
                 IN IF c < 0 THEN down
                    ELSE IF c > 0 THEN up
                    ELSE \* exact tie
                      CASE rnd = NonSymPos -> up
                        [] rnd = NonSymNeg -> down
                        [] rnd = SymInf    -> IF NLt(m, NZero) THEN down ELSE up
                        [] rnd = SymZero   -> IF NLt(m, NZero) THEN up ELSE down
                        [] rnd = ConvEven  -> IF NOdd(down) THEN up ELSE down
                        [] rnd = ConvOdd   -> IF NOdd(down) THEN down ELSE up

(* Saturation and wrapping of mantissa m (same fraction bits) into f.      *)

ClipM(m, f) == IF NLt(m, MinM(f)) THEN MinM(f)
               ELSE IF NLt(MaxM(f), m) THEN MaxM(f) ELSE m

WrapM(m, f) ==
    IF Width(f) = 0 THEN NZero
    ELSE LET u == NLow(m, Width(f))
         IN IF f.S = 1 /\ NLe(NPow2(Width(f) - 1), u)
            THEN NSub(u, NPow2(Width(f))) ELSE u

SatM(m, f, sat) == IF Clips(sat) THEN ClipM(m, f) ELSE WrapM(m, f)

(* The number m*2^-aF brought into format r. *)
ResizeM(m, aF, r, rnd, sat) == SatM(RoundM(m, aF, r.F, rnd), r, sat)

(* Would it neither clip nor wrap? *)
FitsM(m, aF, r, rnd) == InRangeM(RoundM(m, aF, r.F, rnd), r)

----------------------------------------------------------------------------
(* Exact results, as <<mantissa, fraction bits>>.                          *)

AddX(m, a, n, b) == LET F == IMax(a.F, b.F)
                    IN <<NAdd(NShl(m, F - a.F), NShl(n, F - b.F)), F>>
SubX(m, a, n, b) == LET F == IMax(a.F, b.F)
                    IN <<NSub(NShl(m, F - a.F), NShl(n, F - b.F)), F>>
MultX(m, a, n, b) == <<NMul(m, n), a.F + b.F>>
NegX(m, a) == <<NNeg(m), a.F>>
AbsX(m, a) == <<IF NLt(m, NZero) THEN NNeg(m) ELSE m, a.F>>
ShiftX(m, a, k) == <<m, a.F - k>>

----------------------------------------------------------------------------
(* Comparison                                                              *)

CompareM(cmp, m, a, n, b) ==
    LET c == ValCmp(m, a.F, n, b.F)
    IN CASE cmp = "="  -> c = 0
         [] cmp = "!=" -> c # 0
         [] cmp = "<"  -> c < 0
         [] cmp = ">"  -> c > 0
         [] cmp = "<=" -> c <= 0
         [] cmp = ">=" -> c >= 0

----------------------------------------------------------------------------
(* Conversions                                                             *)

\* A finite binary floating-point number is given exactly as m*2^-F.
FromRealM(m, F, r) == ClipM(RoundM(m, F, r.F, NonSymPos), r)
RealOutOfRange(m, F, r) ==
    \/ ValCmp(m, F, MaxM(r), r.F) > 0
    \/ ValCmp(m, F, MinM(r), r.F) < 0

\* Two's-complement bits of m in format f, as an unsigned number.
BitsOf(m, f) == NLow(m, Width(f))
\* Number of 64-bit words and word i (1-based, least significant first).
Words(f) == (Width(f) + 63) \div 64
WordOf(m, f, i) == NLow(NFlr(BitsOf(m, f), 64 * (i - 1)), 64)

----------------------------------------------------------------------------
(* Recommended pipeline stages                                             *)

RoundStages(a, rF, rnd) == IF rnd = Trunc \/ rF >= a.F THEN 0 ELSE 1
SatStages(a, r, sat) ==
    IF ~Clips(sat) THEN 0
    ELSE IF r.I >= a.I /\ r.S = a.S THEN 0 ELSE 1
ResizeStages(a, r, rnd, sat) ==
    RoundStages(a, r.F, rnd) + SatStages(RoundFmt(a, r.F, rnd), r, sat)

=============================================================================
