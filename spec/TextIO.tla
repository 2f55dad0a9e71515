------------------------------- MODULE TextIO -------------------------------
(***************************************************************************)
(* Numbers in text files.  Text is a sequence of character codes, a file a *)
(* sequence of lines.                                                      *)
(*                                                                         *)
(*  - what number a piece of text denotes, in binary, decimal and          *)
(*    hexadecimal notation;                                                *)
(*  - the numbers in a line (tokens), and in a whole file (row-major);     *)
(*  - a file being read as a state machine: a position, and reads that     *)
(*    skip lines and take the first number of the next one.                *)
(***************************************************************************)
EXTENDS BigInt

Minus == 45
Hash == 35
InC(c, a, b) == a <= c /\ c <= b

\* Value of a digit character, or 99.
DigitOf(c) == CASE InC(c, 48, 57)  -> c - 48
                [] InC(c, 65, 70)  -> c - 55
                [] InC(c, 97, 102) -> c - 87
                [] OTHER           -> 99
Radix(mode) == CASE mode = "bin" -> 2 [] mode = "dec" -> 10 [] mode = "hex" -> 16
IsDigit(c, mode) == DigitOf(c) < Radix(mode)

RECURSIVE MagOfDigits(_, _, _)
MagOfDigits(t, radix, acc) ==
    IF t = <<>> THEN acc
    ELSE MagOfDigits(Tail(t), radix, MagMulSmall(acc, radix, DigitOf(Head(t))))
Digits(t, mode) == Big(1, Trim(MagOfDigits(t, Radix(mode), <<>>)))

AllDigits(t, mode) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i], mode)

Numeral(t, mode, sgn) ==
    \/ AllDigits(t, mode)
    \/ mode = "dec" /\ sgn = 1 /\ Len(t) > 1 /\ t[1] = Minus /\ AllDigits(Tail(t), mode)

\* The number a numeral denotes: signed binary and hexadecimal numerals are
\* two's complement, of the width they show.
Number(t, mode, sgn) ==
    IF mode = "dec"
    THEN IF t[1] = Minus THEN BigNeg(Digits(Tail(t), mode)) ELSE Digits(t, mode)
    ELSE LET n == Len(t) * (IF mode = "bin" THEN 1 ELSE 4)
             u == Digits(t, mode)
         IN IF sgn = 1 /\ BigCmp(u, BigPow2(n - 1)) >= 0 THEN BigSub(u, BigPow2(n)) ELSE u

Denotes(t, mode, sgn, v) == Numeral(t, mode, sgn) /\ Number(t, mode, sgn) = v

BitsOf(v, w) == BigLow(v, w)
FromBits(u, w, sgn) == IF sgn = 1 /\ BigCmp(u, BigPow2(w - 1)) >= 0 THEN BigSub(u, BigPow2(w)) ELSE u

----------------------------------------------------------------------------
(* Lines *)

RECURSIVE FirstDigit(_, _, _)
FirstDigit(row, i, mode) == IF i > Len(row) \/ IsDigit(row[i], mode) THEN i ELSE FirstDigit(row, i + 1, mode)
RECURSIVE RunEnd(_, _, _)
RunEnd(row, i, mode) == IF i < Len(row) /\ IsDigit(row[i + 1], mode) THEN RunEnd(row, i + 1, mode) ELSE i

\* The numerals in a line from position i on.
RECURSIVE TokensFrom(_, _, _, _)
TokensFrom(row, i, mode, sgn) ==
    LET k == FirstDigit(row, i, mode)
    IN IF k > Len(row) THEN <<>>
       ELSE LET j == RunEnd(row, k, mode)
                s == IF mode = "dec" /\ sgn = 1 /\ k > i /\ row[k - 1] = Minus THEN k - 1 ELSE k
            IN <<SubSeq(row, s, j)>> \o TokensFrom(row, j + 1, mode, sgn)
Tokens(row, mode, sgn) == TokensFrom(row, 1, mode, sgn)
Columns(row, mode) == Len(Tokens(row, mode, 0))

RowNumbers(row, mode, sgn) == LET t == Tokens(row, mode, sgn) IN [i \in 1..Len(t) |-> Number(t[i], mode, sgn)]

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

\* All numbers of a file after skip lines.
FileNumbers(lines, skip, mode, sgn) ==
    Concat([i \in 1..(Len(lines) - skip) |-> RowNumbers(lines[skip + i], mode, sgn)])

\* A file that holds the numbers data, one per row, below an optional header.
HeaderLines(header) == IF header = <<>> THEN <<>> ELSE <<header>>
Holds(lines, header, data, mode, sgn) ==
    /\ Len(lines) = Len(HeaderLines(header)) + Len(data)
    /\ SubSeq(lines, 1, Len(HeaderLines(header))) = HeaderLines(header)
    /\ \A i \in 1..Len(data) : Denotes(lines[Len(HeaderLines(header)) + i], mode, sgn, data[i])

\* A line made of a prefix and of numerals, each after a separator.
RECURSIVE Spells(_, _, _)
Spells(row, items, i) ==
    IF i > Len(items) THEN row = <<>>
    ELSE LET it == items[i]
             n  == Len(it.sep)
         IN /\ Len(row) > n
            /\ SubSeq(row, 1, n) = it.sep
            /\ \E k \in (n + 1)..Len(row) :
                  /\ Denotes(SubSeq(row, n + 1, k), it.mode, it.sgn, it.v)
                  /\ k = Len(row) \/ ~IsDigit(row[k + 1], it.mode)
                  /\ Spells(SubSeq(row, k + 1, Len(row)), items, i + 1)

----------------------------------------------------------------------------
(* Reading step by step: the state is the number of lines consumed.        *)
(* A step skips lines, takes the first number of the next line, and may    *)
(* close the file; a closed file is opened again from its beginning.       *)
LineOf(pos, st) == pos + st.skip + 1
NextPos(pos, st) == IF st.close = 1 THEN 0 ELSE LineOf(pos, st)

RECURSIVE Reads(_, _, _)
Reads(lines, pos, steps) ==
    IF steps = <<>> THEN <<>>
    ELSE LET st == Head(steps)
             t  == Tokens(lines[LineOf(pos, st)], st.mode, st.sgn)[1]
         IN <<BitsOf(Number(t, st.mode, st.sgn), st.w)>> \o Reads(lines, NextPos(pos, st), Tail(steps))

RECURSIVE LinesRead(_, _)
LinesRead(pos, steps) ==
    IF steps = <<>> THEN <<>>
    ELSE <<LineOf(pos, Head(steps))>> \o LinesRead(NextPos(pos, Head(steps)), Tail(steps))

----------------------------------------------------------------------------
(* Formats in text: "(S,I,F)", blanks between the parts are allowed.       *)
NoBlanks(t) == SelectSeq(t, LAMBDA c : c # 32)
Spelt(t, v) == Denotes(t, "dec", 1, BigOf(v))
FormatText(row, f) ==
    LET t == NoBlanks(row)
        n == Len(t)
    IN /\ n >= 7
       /\ t[1] = 40 /\ t[n] = 41
       /\ \E a, b \in 3..(n - 2) :
             /\ a < b
             /\ t[a] = 44 /\ t[b] = 44
             /\ Spelt(SubSeq(t, 2, a - 1), f[1])
             /\ Spelt(SubSeq(t, a + 1, b - 1), f[2])
             /\ Spelt(SubSeq(t, b + 1, n - 1), f[3])
=============================================================================
