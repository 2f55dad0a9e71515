------------------------------- MODULE Texts --------------------------------
(***************************************************************************)
(* Formats, modes and values as text (sequences of character codes).       *)
(***************************************************************************)
EXTENDS TextIO

\* Names in lower case; the position is the mode's number plus one.
\* trunc_s, nonsympos_s, nonsymneg_s, syminf_s, symzero_s, conveven_s, convodd_s
RoundNames == <<
      <<116,114,117,110,99,95,115>>,
      <<110,111,110,115,121,109,112,111,115,95,115>>,
      <<110,111,110,115,121,109,110,101,103,95,115>>,
      <<115,121,109,105,110,102,95,115>>,
      <<115,121,109,122,101,114,111,95,115>>,
      <<99,111,110,118,101,118,101,110,95,115>>,
      <<99,111,110,118,111,100,100,95,115>>>>
\* none_s, warn_s, sat_s, satwarn_s
SatNames == <<
      <<110,111,110,101,95,115>>,
      <<119,97,114,110,95,115>>,
      <<115,97,116,95,115>>,
      <<115,97,116,119,97,114,110,95,115>>>>

Lower(c) == IF InC(c, 65, 90) THEN c + 32 ELSE c
LowerCase(t) == [i \in 1..Len(t) |-> Lower(t[i])]
NamesOf(table) == IF table = "rnd" THEN RoundNames ELSE SatNames
\* Modes a text names (at most one).
Named(t, table) == {i \in 0..(Len(NamesOf(table)) - 1) : NamesOf(table)[i + 1] = LowerCase(t)}

----------------------------------------------------------------------------
(* A format is whatever stands between the first "(" and the next ")".     *)
Positions(t, c) == {i \in 1..Len(t) : t[i] = c}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Bracketed(t) == LET a == MinOf(Positions(t, 40))
                    b == MinOf({i \in Positions(t, 41) : i > a})
                IN SubSeq(t, a, b)
HasBrackets(t) == \E a \in Positions(t, 40) : \E b \in Positions(t, 41) : a < b
FormatIn(t, f) == HasBrackets(t) /\ FormatText(Bracketed(t), f)

----------------------------------------------------------------------------
(* A value: its bits (most significant first) with the binary point after  *)
(* S+I of them.  Digits in parentheses fill the gap when the point lies    *)
(* outside: copies of the sign above, zeros below.                         *)
Rep(c, n) == [i \in 1..n |-> c]
Zero == 48
SignOf(bits, f) == IF f[1] = 1 THEN bits[1] ELSE Zero
IsPlain(c) == c \notin {40, 41, 46}
RECURSIVE Outside(_, _)
Outside(t, in) ==       \* the digits outside (in = FALSE) of parentheses
    IF t = <<>> THEN <<>>
    ELSE LET c == Head(t)
         IN CASE c = 40 -> Outside(Tail(t), TRUE)
              [] c = 41 -> Outside(Tail(t), FALSE)
              [] c = 46 -> Outside(Tail(t), in)
              [] OTHER  -> (IF in THEN <<>> ELSE <<c>>) \o Outside(Tail(t), in)
AllShown(t) == SelectSeq(t, IsPlain)
Point(t) == MinOf(Positions(t, 46))
ShowsValue(t, bits, f) ==
    LET lead  == IF f[1] + f[2] < 0 THEN -(f[1] + f[2]) ELSE 0
        trail == IF f[3] < 0 THEN -f[3] ELSE 0
    IN /\ \A i \in 1..Len(t) : ~IsPlain(t[i]) \/ InC(t[i], 33, 126)
       /\ Outside(t, FALSE) = bits
       /\ AllShown(t) = Rep(SignOf(bits, f), lead) \o bits \o Rep(Zero, trail)
       /\ Len(SelectSeq(t, LAMBDA c : c = 46)) = 1
       /\ Len(AllShown(SubSeq(t, 1, Point(t)))) = (IF lead > 0 THEN 0 ELSE f[1] + f[2])
=============================================================================
