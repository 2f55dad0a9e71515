------------------------------ MODULE MC_Cosim ------------------------------
(* The enumeration of a scenario reaches every combination of operand      *)
(* values exactly once, every entry is a value of the result format, and   *)
(* the packed comparisons are consistent.                                  *)
EXTENDS NativeInt, FiniteSets, Sequences
CONSTANTS Lo, Hi
INSTANCE Cosim WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd

VARIABLES q, j, seen
vars == <<q, j, seen>>

Fs == Usable((0 - Lo)..Hi)
Bs(op) == IF op \in Ops2 THEN Fs ELSE {<<>>}
Rs(op, a) == CASE op = "compare" -> {<<>>}
               [] op = "saturate" -> {r \in Fs : r[3] = a[3]}
               [] op = "round" -> {LET r == RoundFmt(G3(a), rF, NonSymPos) IN <<r.S, r.I, r.F>> : rF \in (0 - Lo)..Hi}
               [] OTHER -> Fs

Init == /\ \E op \in CosimOps : \E a \in Fs : \E b \in Bs(op) : \E r \in Rs(op, a) :
             q = [op |-> op, a |-> a, b |-> b, r |-> r, rnd |-> NonSymPos, sat |-> SatSat, sh |-> IF op = "shift" THEN 1 ELSE 0]
        /\ j = 0 /\ seen = {}

Combination == <<AAt(q, j), IF q.op \in Ops2 THEN BAt(q, j) ELSE 0, AddAt(q, j)>>
Next == j < Entries(q) /\ seen' = seen \cup {Combination} /\ j' = j + 1 /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

Values(f) == {m \in -64..64 : InRangeM(m, f)}
OnceEach == Cardinality(seen) = j
AllReached == j = Entries(q) =>
    seen = Values(G3(q.a)) \X (IF q.op \in Ops2 THEN Values(G3(q.b)) ELSE {0})
           \X (IF q.op = "addsub" THEN {FALSE, TRUE} ELSE {FALSE})
InFormat == j < Entries(q) /\ q.op # "compare" => InRangeM(Entry(q, j), G3(q.r))
\* exactly one of =, <, > ; the others follow
Packed == j < Entries(q) /\ q.op = "compare" => Entry(q, j) \in {1 + 16 + 32, 2 + 4 + 16, 2 + 8 + 32}
=============================================================================
