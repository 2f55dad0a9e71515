------------------------------ MODULE Pipeline -------------------------------
(***************************************************************************)
(* The clocked components (round, saturate, resize).                       *)
(*                                                                         *)
(* A history is a sequence of clock cycles                                 *)
(*     [rst, v, m, d, ov, om, od]                                          *)
(* with the inputs (reset, valid, metadata, data) and the outputs during   *)
(* that cycle.  A component of latency L with function Fn delivers every   *)
(* valid sample once, L cycles later, together with its metadata, unless   *)
(* a reset intervenes.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* The sample of cycle t - L is due in cycle t.
Due(h, t, L) == /\ t - L >= 1
                /\ h[t - L].v = 1
                /\ \A j \in (t - L)..(t - 1) : L > 0 => h[j].rst = 0

Carries(h, t, L, Fn(_)) == h[t].om = h[t - L].m /\ h[t].od = Fn(h[t - L].d)

\* Cycles after the first reset.
RECURSIVE FirstReset(_, _)
FirstReset(h, t) == IF t > Len(h) THEN t ELSE IF h[t].rst = 1 THEN t ELSE FirstReset(h, t + 1)

(* During a reset cycle a sample that is due is in flight: it may still be  *)
(* shown or not.                                                           *)
CycleOK(h, t, L, Fn(_)) ==
    IF L = 0
    THEN /\ h[t].ov = h[t].v
         /\ h[t].v = 1 => Carries(h, t, 0, Fn)
    ELSE /\ h[t].ov \in {0, 1}
         /\ h[t].ov = 1 => Due(h, t, L) /\ Carries(h, t, L, Fn)
         /\ Due(h, t, L) => h[t].ov = 1 \/ h[t].rst = 1

Delivers(h, L, Fn(_)) ==
    \A t \in (IF L = 0 THEN 1 ELSE FirstReset(h, 1) + 1)..Len(h) : CycleOK(h, t, L, Fn)

(***************************************************************************)
(* The machine: a chain of stages, each registered or not.  Stage i        *)
(* computes its part of the function on what enters it.                    *)
(***************************************************************************)
Bubble(s) == [s EXCEPT !.v = 0]

\* What leaves a chain of stages when x enters: regs[i] is the content of
\* the register of stage i (used only if reg[i]).
RECURSIVE Leaves(_, _, _, _, _)
Leaves(reg, regs, Part(_, _), n, x) ==
    IF n = 0 THEN x
    ELSE IF reg[n] THEN regs[n]
    ELSE LET y == Leaves(reg, regs, Part, n - 1, x) IN [y EXCEPT !.d = Part(n, y.d)]

\* Register contents after the clock edge.
Clocked(reg, regs, Part(_, _), x, rst) ==
    [n \in 1..Len(reg) |->
        LET y == Leaves(reg, regs, Part, n - 1, x)
            z == [y EXCEPT !.d = Part(n, y.d)]
        IN IF rst = 1 THEN Bubble(z) ELSE z]

RECURSIVE Latency(_)
Latency(reg) == IF reg = <<>> THEN 0 ELSE (IF Head(reg) THEN 1 ELSE 0) + Latency(Tail(reg))
=============================================================================
