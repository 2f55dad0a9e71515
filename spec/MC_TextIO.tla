------------------------------ MODULE MC_TextIO -----------------------------
(* Laws of the text model over all small numbers, and the reading machine   *)
(* over all small files.                                                    *)
EXTENDS TextIO

CONSTANTS MaxW, MaxRows, MaxCols

Chr(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE Render(_, _, _)
\* n >= 0 as exactly k digits
Render(n, radix, k) == IF k = 0 THEN <<>> ELSE Render(n \div radix, radix, k - 1) \o <<Chr(n % radix)>>

Values(w, s) == IF s = 1 THEN (-(2^(w - 1)))..(2^(w - 1) - 1) ELSE 0..(2^w - 1)
Len0(w, mode) == CASE mode = "bin" -> w [] mode = "hex" -> (w + 3) \div 4 [] mode = "dec" -> 1 + w \div 3
\* How the library writes a number (with a number of leading zeros of its choice in decimal)
Write(v, w, s, mode, pad) ==
    LET n == Len0(w, mode)
    IN CASE mode = "bin" -> Render(v % 2^w, 2, n)
         [] mode = "hex" -> Render(v % 2^(4 * n), 16, n)
         [] mode = "dec" -> IF v < 0 THEN <<Minus>> \o Render(-v, 10, n + pad) ELSE Render(v, 10, n + pad)

VARIABLES w, s, mode, file, pos, skip, seen
vars == <<w, s, mode, file, pos, skip, seen>>
Modes == {"bin", "dec", "hex"}
Cells == LET vs == Values(w, s) IN {<<v>> : v \in vs} \cup (IF MaxCols > 1 THEN {<<v, u>> : v, u \in vs} ELSE {})
Sep == <<32>>
RowText(r) == IF Len(r) = 1 THEN Write(r[1], w, s, mode, 0)
              ELSE Write(r[1], w, s, mode, 0) \o Sep \o Write(r[2], w, s, mode, 1)
Text(f) == [i \in 1..Len(f) |-> RowText(f[i])]

Init == /\ w \in 1..MaxW /\ s \in {0, 1} /\ mode \in Modes
        /\ file = <<>> /\ pos = 0 /\ skip = 0 /\ seen = <<>>
WriteRow == /\ pos = 0 /\ skip = 0 /\ Len(file) < MaxRows
            /\ \E r \in Cells : file' = Append(file, r)
            /\ UNCHANGED <<w, s, mode, pos, skip, seen>>
ReadOne == \E k \in 0..1 :
            LET st == [skip |-> k, close |-> 0, mode |-> mode, sgn |-> s, w |-> w]
            IN /\ LineOf(pos, st) <= Len(file)
               /\ seen' = Append(seen, LineOf(pos, st))
               /\ skip' = skip + k
               /\ pos' = NextPos(pos, st)
               /\ UNCHANGED <<w, s, mode, file>>
Next == WriteRow \/ ReadOne
Spec == Init /\ [][Next]_vars

\* What was written denotes the numbers, whatever the padding.
WrittenOK == pos = 0 => \A v \in Values(w, s), p \in 0..2 : Denotes(Write(v, w, s, mode, p), mode, s, BigOf(v))
\* No text denotes two numbers of a format, and bits come back.
Unique == pos = 0 => \A u, v \in Values(w, s) : Denotes(Write(v, w, s, mode, 0), mode, s, BigOf(u)) => u = v
BitsBack == pos = 0 => \A v \in Values(w, s) : FromBits(BitsOf(BigOf(v), w), w, s) = BigOf(v)
\* All numbers of the file, row-major.
WholeFile == FileNumbers(Text(file), 0, mode, s) = Concat([i \in 1..Len(file) |-> [j \in 1..Len(file[i]) |-> BigOf(file[i][j])]])
Widths == \A i \in 1..Len(file) : Columns(RowText(file[i]), mode) = Len(file[i])
\* The machine reads increasing rows: consecutive ones but for what was skipped.
Order == \A i \in 1..Len(seen) : seen[i] <= Len(file) /\ (i > 1 => seen[i] > seen[i - 1])
Progress == pos = Len(seen) + skip
=============================================================================
