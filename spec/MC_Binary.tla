----------------------------- MODULE MC_Binary ------------------------------
(* Exhaustive small-scope check of result formats (C01, C02), exact          *)
(* arithmetic (C06) and comparison (C10): every pair of formats of at most   *)
(* MaxW bits, every pair of values.                                          *)
EXTENDS TLC, NativeInt, Sequences
INSTANCE Formats WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd
CONSTANTS MaxW, Fas, Fbs

VARIABLES fa, fb, m, n
vars == <<fa, fb, m, n>>

Formats_(maxw, Fs) == {f \in {Fmt(s, w - s - f, f) : s \in {0, 1}, w \in 1..maxw, f \in Fs} : NonNull(f)}

Init == /\ fa \in Formats_(MaxW, Fas)
        /\ fb \in Formats_(MaxW, Fbs)
        /\ m = MinM(fa) /\ n = MinM(fb)
Next == \/ /\ n < MaxM(fb) /\ n' = n + 1 /\ UNCHANGED <<fa, fb, m>>
        \/ /\ n = MaxM(fb) /\ m < MaxM(fa) /\ m' = m + 1 /\ n' = MinM(fb) /\ UNCHANGED <<fa, fb>>
Spec == Init /\ [][Next]_vars

Rep(x, f) == Represents(f, x[1], x[2])

\* Every exact result is a value of the operation's format.
Hold == /\ Rep(AddX(m, fa, n, fb), AddFmt(fa, fb))
        /\ Rep(SubX(m, fa, n, fb), SubFmt(fa, fb))
        /\ Rep(AddX(m, fa, n, fb), AddSubFmt(fa, fb))
        /\ Rep(SubX(m, fa, n, fb), AddSubFmt(fa, fb))
        /\ Rep(MultX(m, fa, n, fb), MultFmt(fa, fb))
        /\ Rep(NegX(m, fa), NegFmt(fa))
        /\ Rep(AbsX(m, fa), AbsFmt(fa))
        /\ \A lo, hi \in -2..2 : lo <= hi => \A k \in lo..hi : Rep(ShiftX(m, fa, k), ShiftFmt(fa, lo, hi))

Ops == {"add", "sub", "addsub", "mult", "neg", "abs"}

\* The verdicts on formats used on traces (which look at a few operand values
\* only) agree with the definition over all values, and single out one format.
AllValues(op) == {x : x \in UNION {Results(op, p, fa, q, fb) : p \in MinM(fa)..MaxM(fa), q \in MinM(fb)..MaxM(fb)}}
First == m = MinM(fa) /\ n = MinM(fb)
Verdicts ==
    First => \A op \in Ops :
        LET f == OpFmt(op, fa, fb)
            all == AllValues(op)
            around == {g \in [S : {0, 1}, I : (f.I - 1)..(f.I + 1), F : (f.F - 1)..(f.F + 1)] : ValidFmt(g)}
        IN \A g \in around :
             /\ Holds(op, fa, fb, g) <=> (\A x \in all : Rep(x, g))
             /\ (Holds(op, fa, fb, g) /\ TightS(op, fa, fb, g) /\ TightI(op, fa, fb, g) /\ TightF(op, fa, fb, g)) <=> g = f

\* Comparison is a total order of the exact values, antisymmetric in its arguments.
Compare ==
    LET c(r) == CompareM(r, m, fa, n, fb)
        d(r) == CompareM(r, n, fb, m, fa)
    IN /\ c("=") = ~c("!=") /\ c("<") = ~c(">=") /\ c(">") = ~c("<=")
       /\ c("<") = d(">") /\ c("=") = d("=")
       /\ c("=") <=> SubX(m, fa, n, fb)[1] = 0
       /\ c("<") <=> SubX(m, fa, n, fb)[1] < 0

\* Subtraction undoes addition; negation is subtraction from zero; abs is max(x, -x).
Algebra ==
    LET s == AddX(m, fa, n, fb)
        z == Fmt(0, 0, 0)
    IN /\ LET t == SubX(s[1], Fmt(1, 0, s[2]), n, fb) IN ValCmp(t[1], t[2], m, fa.F) = 0
       /\ LET t == SubX(0, z, m, fa) IN ValCmp(t[1], t[2], NegX(m, fa)[1], fa.F) = 0
       /\ AbsX(m, fa)[1] \in {m, -m} /\ AbsX(m, fa)[1] >= m /\ AbsX(m, fa)[1] >= -m
=============================================================================
