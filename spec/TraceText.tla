------------------------------ MODULE TraceText -----------------------------
(***************************************************************************)
(* Conformance of recorded text-file operations.  Clauses:                 *)
(*   refused    the operation failed                                       *)
(*   denotes    the text written does not denote the numbers (or the rows, *)
(*              or the header, are not as specified)                       *)
(*   numbers    other numbers were read than the text denotes              *)
(*   trip       other bits were read than had been written                 *)
(*   sizes      wrong number of lines or columns                           *)
(*   closed     the file was left open, or closed                          *)
(***************************************************************************)
EXTENDS TextIO, TraceRun

Bits(vs, w) == [i \in 1..Len(vs) |-> BitsOf(vs[i], w)]
Formats(row) == row

Verdict(e) ==
    IF e.st # "ok" THEN {"refused"}
    ELSE
    CASE e.op = "write_file" -> IF Holds(e.lines, e.header, e.data, e.mode, e.sgn) THEN {} ELSE {"denotes"}
      [] e.op = "write_seq" ->
           IF /\ Len(e.lines) = Len(e.items)
              /\ \A i \in 1..Len(e.items) : Denotes(e.lines[i], e.items[i].mode, e.items[i].sgn, e.items[i].v)
           THEN {} ELSE {"denotes"}
      [] e.op = "write_line" ->
           IF /\ Len(e.row) >= Len(e.prefix)
              /\ SubSeq(e.row, 1, Len(e.prefix)) = e.prefix
              /\ Spells(SubSeq(e.row, Len(e.prefix) + 1, Len(e.row)), e.items, 1)
           THEN {} ELSE {"denotes"}
      [] e.op = "read_file" ->
           (IF e.out = Bits(FileNumbers(e.lines, e.skip, e.mode, e.sgn), e.w) THEN {} ELSE {"numbers"})
           \cup (IF e.known = 1 /\ e.out # Bits(e.data, e.w) THEN {"trip"} ELSE {})
      [] e.op = "read_seq" ->
           (IF e.out = Reads(e.lines, 0, e.items) THEN {} ELSE {"numbers"})
           \cup (IF e.closed = [i \in 1..Len(e.items) |-> e.items[i].close] THEN {} ELSE {"closed"})
      [] e.op = "read_line" ->
           LET t == [i \in 1..Len(e.items) |-> Tokens(e.row, e.mode, e.items[i].sgn)[i]]
           IN IF e.out = [i \in 1..Len(t) |-> BitsOf(Number(t[i], e.mode, e.items[i].sgn), e.items[i].w)]
              THEN {} ELSE {"numbers"}
      [] e.op = "sizes" ->
           IF /\ e.rows = Len(e.lines)
              /\ e.cols = IF Len(e.lines) > e.skip THEN Columns(e.lines[e.skip + 1], e.mode) ELSE 0
           THEN {} ELSE {"sizes"}
      [] e.op = "write_fmts" ->
           IF Len(e.lines) = Len(e.fmts) /\ \A i \in 1..Len(e.fmts) : FormatText(e.lines[i], e.fmts[i])
           THEN {} ELSE {"denotes"}
      [] e.op = "read_fmts" ->
           IF /\ Len(e.fmts) = Len(e.lines) - e.skip
              /\ \A i \in 1..Len(e.fmts) : FormatText(e.lines[e.skip + i], e.fmts[i])
           THEN {} ELSE {"numbers"}
      [] e.op = "read_fmt_seq" ->
           LET at == LinesRead(0, e.items)
           IN (IF \A i \in 1..Len(at) : FormatText(e.lines[at[i]], e.fmts[i]) THEN {} ELSE {"numbers"})
              \cup (IF e.closed = [i \in 1..Len(e.items) |-> e.items[i].close] THEN {} ELSE {"closed"})

Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
