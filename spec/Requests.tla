------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Which requests have an answer, and why the others have none.            *)
(*                                                                         *)
(* A request (see Calls) also says in which representation its operands    *)
(* were presented: ra, rb \in {"narrow", "wide", "other", ""} (doubles,    *)
(* Python integers, anything else, no operand).                            *)
(***************************************************************************)
EXTENDS Verdicts

\* Calls that compute with operand data (and not only hand it back).
Computes(q) ==
    \/ q.op \in Arith \cup {"resize", "round", "saturate", "in_range", "pack", "construct", "compare"}
    \/ q.op = "to_integer" /\ ~IsWide(F3(q.fa))
    \/ q.op = "to_real" /\ (q.src = "wide" \/ IsWide(F3(q.fa)))

\* The representation that data of format f must have.
Due(q, f) == IF q.src \in {"narrow", "wide"} THEN q.src
             ELSE IF q.op = "pack" THEN "wide" ELSE RepOf(F3(f))

FmtArgs(q) == {f \in {q.fa, q.fb, q.fr} : f # <<>>}

\* Operations whose operand formats must have at least one bit: those that
\* derive a result format.
Operands(q) ==
    CASE q.op \in Binary \cup {"add_fmt", "sub_fmt", "addsub_fmt", "mult_fmt"} -> {q.fa, q.fb}
      [] q.op \in Unary \cup {"shift", "neg_fmt", "abs_fmt", "shift_fmt", "round_fmt", "round", "resize", "in_range",
                              "pipe_round", "pipe_sat", "pipe_resize"} -> {q.fa}
      [] OTHER -> {}

Reasons(q) ==
    (IF \E f \in FmtArgs(q) : f[1] \notin {0, 1} THEN {"sign field"} ELSE {})
    \cup (IF \E f \in FmtArgs(q) : f[2] + f[3] < 0 THEN {"negative width"} ELSE {})
    \cup (IF \E f \in Operands(q) : f[1] + f[2] + f[3] <= 0 THEN {"empty operand"} ELSE {})
    \cup (IF \A f \in FmtArgs(q) : OkFmt(f)
          THEN (IF /\ q.op \in {"round", "pipe_round"} /\ OkFmt1(q.fa)
                   /\ F3(q.fr) # RoundFmt(F3(q.fa), q.fr[3], q.rnd) THEN {"not the rounding format"} ELSE {})
               \cup (IF q.op \in {"saturate", "pipe_sat"} /\ q.fr[3] # q.fa[3] THEN {"fraction bits changed"} ELSE {})
               \cup (IF q.op = "from_real" /\ ~Clips(q.sat) THEN {"real asked to wrap"} ELSE {})
               \cup (IF q.op = "from_integer" /\ \E i \in 1..Len(q.a.v) : ~InRangeM(q.a.v[i], F3(q.fr))
                     THEN {"integer out of range"} ELSE {})
               \cup (IF q.op = "shift_fmt" /\ q.x[1] > q.x[2] THEN {"inverted shift range"} ELSE {})
               \cup (IF q.op = "compare" /\ q.x[1] \notin 1..Len(Cmps) THEN {"unknown comparison"} ELSE {})
               \cup (IF (q.op = "pack" /\ ~IsWide(F3(q.fa))) \/ (q.op = "unpack" /\ ~IsWide(F3(q.fr)))
                     THEN {"not wide"} ELSE {})
               \cup (IF q.op = "construct" /\ q.src = "narrow" /\ IsWide(F3(q.fa)) THEN {"not narrow"} ELSE {})
               \cup (IF Computes(q) /\ ((q.ra # "" /\ q.ra # Due(q, q.fa)) \/ (q.rb # "" /\ q.rb # Due(q, q.fb)))
                     THEN {"representation"} ELSE {})
               \cup (IF q.op = "unpack" /\ q.ra # "words" THEN {"representation"} ELSE {})
          ELSE {})

(* Clauses: accepted (an answer to a meaningless request), refused (none   *)
(* to a meaningful one).                                                   *)
RequestVerdict(e) ==
    IF Reasons(e) # {} THEN (IF e.st = "refused" THEN {} ELSE {"accepted"})
    ELSE (IF e.st = "ok" THEN {} ELSE {"refused"})
=============================================================================
