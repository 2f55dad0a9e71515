------------------------------- MODULE MC_Texts -----------------------------
(* No text denotes two formats, two modes or two values; what a printer     *)
(* writes, a reader gets back.                                              *)
EXTENDS Texts
CONSTANT R

RECURSIVE Nat2(_)
Nat2(n) == IF n < 10 THEN <<48 + n>> ELSE Nat2(n \div 10) \o <<48 + (n % 10)>>
Decimal(n) == IF n < 0 THEN <<Minus>> \o Nat2(-n) ELSE Nat2(n)
Blanks(k) == Rep(32, k)
PrintFmt(f, k) == <<40>> \o Decimal(f[1]) \o <<44>> \o Blanks(k) \o Decimal(f[2]) \o <<44>> \o Blanks(k) \o Decimal(f[3]) \o <<41>>

PrintValue(bits, f) ==
    LET n == f[1] + f[2]
    IN IF n < 0 THEN <<46, 40>> \o Rep(SignOf(bits, f), -n) \o <<41>> \o bits
       ELSE IF f[3] < 0 THEN bits \o <<40>> \o Rep(Zero, -f[3]) \o <<41, 46>>
       ELSE SubSeq(bits, 1, n) \o <<46>> \o SubSeq(bits, n + 1, Len(bits))

Fmts == {<<s, i, f>> : s \in {0, 1}, i \in (-R)..R, f \in (-R)..R}
Used == {f \in Fmts : f[1] + f[2] + f[3] \in 1..4}
BitSeqs(f) == [1..(f[1] + f[2] + f[3]) -> {48, 49}]

VARIABLE cur
Init == cur \in Fmts
Next == FALSE /\ UNCHANGED cur
Spec == Init /\ [][Next]_cur
Faithful == \A k \in 0..1 : FormatIn(<<70>> \o PrintFmt(cur, k), cur)
Unique == \A g \in Fmts : FormatIn(PrintFmt(cur, 1), g) => g = cur
Values == cur \in Used => \A b \in BitSeqs(cur) : ShowsValue(PrintValue(b, cur), b, cur)
ValuesUnique == cur \in Used => \A b, d \in BitSeqs(cur) : ShowsValue(PrintValue(b, cur), d, cur) => b = d
\* The binary point tells formats apart.
PointUnique == cur \in Used => \A g \in Used : (g[1] = cur[1] /\ g[1] + g[2] + g[3] = cur[1] + cur[2] + cur[3]) =>
                   \A b \in BitSeqs(cur) : ShowsValue(PrintValue(b, cur), b, g) => g = cur
Modes == /\ \A i \in 1..7 : Named(RoundNames[i], "rnd") = {i - 1} /\ Named(RoundNames[i], "sat") = {}
         /\ \A i \in 1..4 : Named(SatNames[i], "sat") = {i - 1} /\ Named(SatNames[i], "rnd") = {}
=============================================================================
