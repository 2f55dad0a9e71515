------------------------------ MODULE MC_Unary ------------------------------
(* Exhaustive small-scope check of the laws of rounding, saturation and      *)
(* resizing: every source format of at most MaxW bits, every target format   *)
(* in a window around it, every mode, every value.                           *)
EXTENDS NatFix, TLC
CONSTANTS MaxW, Fs

VARIABLES fa, fr, rnd, sat, m
vars == <<fa, fr, rnd, sat, m>>

Formats(maxw) == {Fmt(s, w - s - f, f) : s \in {0, 1}, w \in 1..maxw, f \in Fs}
Src == {f \in Formats(MaxW) : NonNull(f)}
Targets(a) == {f \in [S : {0, 1}, I : (a.I - 4)..(a.I + 2), F : (a.F - Width(a) - 1)..(a.F + 2)] : NonNull(f)}

\* Rounding target formats: the rounding format of fa for fr.F fraction bits.
Init == /\ fa \in Src
        /\ fr \in Targets(fa)
        /\ rnd = 0 /\ sat = 0
        /\ m = MinM(fa)
Next == \/ /\ m < MaxM(fa) /\ m' = m + 1 /\ UNCHANGED <<fa, fr, rnd, sat>>
        \/ /\ m = MaxM(fa) /\ rnd < 6 /\ rnd' = rnd + 1 /\ m' = MinM(fa) /\ UNCHANGED <<fa, fr, sat>>
        \/ /\ m = MaxM(fa) /\ rnd = 6 /\ sat < 3 /\ sat' = sat + 1 /\ rnd' = 0 /\ m' = MinM(fa) /\ UNCHANGED <<fa, fr>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Rounding (C03).  x = m*2^-fa.F, r = R*2^-fr.F; all scaled by 2^G.        *)
G == IMax(fa.F, fr.F)
X == m * 2^(G - fa.F)
R == RoundM(m, fa.F, fr.F, rnd)
RX == R * 2^(G - fr.F)
Ulp == 2^(G - fr.F)
Abs(n) == IF n < 0 THEN -n ELSE n
IsTie == 2 * Abs(X - RX) = Ulp

RoundExact == (X % Ulp = 0) => RX = X
RoundDown  == rnd = Trunc => RX <= X /\ X - RX < Ulp
RoundNear  == rnd # Trunc => 2 * Abs(X - RX) <= Ulp
RoundTies  == (IsTie /\ fr.F < fa.F /\ rnd # Trunc) =>
                CASE rnd = NonSymPos -> RX > X
                  [] rnd = NonSymNeg -> RX < X
                  [] rnd = SymInf    -> Abs(RX) > Abs(X)
                  [] rnd = SymZero   -> Abs(RX) < Abs(X)
                  [] rnd = ConvEven  -> R % 2 = 0
                  [] rnd = ConvOdd   -> R % 2 = 1
RoundMirror == /\ rnd \in {SymInf, SymZero, ConvEven, ConvOdd} => RoundM(-m, fa.F, fr.F, rnd) = -R
               /\ rnd = NonSymPos => RoundM(-m, fa.F, fr.F, NonSymNeg) = -R
RoundMonotone == m < MaxM(fa) => R <= RoundM(m + 1, fa.F, fr.F, rnd)
RoundFits == InRangeM(R, RoundFmt(fa, fr.F, rnd)) /\ NonNull(RoundFmt(fa, fr.F, rnd))

(* Saturation (C04), on mantissa m into format s with the fraction bits of fa *)
SF == Fmt(fr.S, fr.I, fa.F)
V == SatM(m, SF, sat)
SatOK == NonNull(SF) =>
    /\ InRangeM(V, SF)
    /\ InRangeM(m, SF) => V = m
    /\ Clips(sat) => \A y \in MinM(SF)..MaxM(SF) : Abs(m - V) <= Abs(m - y)
    /\ ~Clips(sat) => (V - m) % 2^Width(SF) = 0
    /\ SatM(V, SF, sat) = V

(* Resize (C07) *)
RF == RoundFmt(fa, fr.F, rnd)
Z == ResizeM(m, fa.F, fr, rnd, sat)
ResizeOK ==
    /\ Z = SatM(R, fr, sat)
    /\ InRangeM(Z, fr)
    /\ Represents(fr, m, fa.F) => ValCmp(Z, fr.F, m, fa.F) = 0
    /\ FitsM(m, fa.F, fr, rnd) <=> SatM(R, fr, SatSat) = R /\ SatM(R, fr, SatNone) = R
    \* resizing into the rounding format and then saturating is the same
    /\ ResizeM(R, fr.F, fr, Trunc, sat) = Z

(* Conversions of one number (C11, C12) *)
FromRealOK ==
    LET y == FromRealM(m, fa.F, fr)
    IN /\ InRangeM(y, fr)
       /\ Represents(fr, m, fa.F) => ValCmp(y, fr.F, m, fa.F) = 0 /\ ~RealOutOfRange(m, fa.F, fr)
       /\ RealOutOfRange(m, fa.F, fr) => y \in {MinM(fr), MaxM(fr)}

(* No register is recommended only where there is nothing to compute (C15)  *)
PipeFree == /\ RoundStages(fa, fr.F, rnd) = 0 => R = (IF fr.F >= fa.F THEN m * 2^(fr.F - fa.F) ELSE m \div 2^(fa.F - fr.F))
            /\ NonNull(SF) /\ SatStages(fa, SF, sat) = 0 => V = WrapM(m, SF)
            /\ NonNull(fr) => ResizeStages(fa, fr, rnd, sat) =
                                RoundStages(fa, fr.F, rnd) + SatStages(RoundFmt(fa, fr.F, rnd), fr, sat)

(* Bit patterns (C09, C13, C20) *)
BitsOK == /\ BitsOf(m, fa) \in 0..(2^Width(fa) - 1)
          /\ WrapM(BitsOf(m, fa), fa) = m
          /\ m < MaxM(fa) => BitsOf(m, fa) # BitsOf(m + 1, fa)
=============================================================================
