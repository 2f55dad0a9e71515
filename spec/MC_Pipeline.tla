----------------------------- MODULE MC_Pipeline -----------------------------
(* The two-stage component (round then saturate) with every register         *)
(* configuration, under every schedule of reset, valid gaps, metadata and   *)
(* data of up to Cycles cycles, delivers as specified -- and with a         *)
(* planted fault (Fault # "none") does not.                                 *)
EXTENDS Pipeline, FiniteSets
CONSTANTS Cycles, Fault

VARIABLES reg, regs, h
vars == <<reg, regs, h>>

Part(n, d) == IF n = 1 THEN d + 2 ELSE 2 * d
Fn(d) == 2 * (d + 2)

Empty == [v |-> 0, m |-> 0, d |-> 0]
\* Before the first reset, anything.
Junk == {Empty, [v |-> 1, m |-> 9, d |-> 9]}

Init == /\ reg \in [1..2 -> BOOLEAN]
        /\ regs \in [1..2 -> Junk]
        /\ h = <<>>

Tick(rst, x) ==
    LET clean == Clocked(reg, regs, Part, x, rst)
        c == CASE Fault = "none"      -> clean
               [] Fault = "reset2"    -> [clean EXCEPT ![2].v = Clocked(reg, regs, Part, x, 0)[2].v]
               [] Fault = "reset1"    -> [clean EXCEPT ![1].v = Clocked(reg, regs, Part, x, 0)[1].v]
               [] Fault = "meta"      -> [clean EXCEPT ![2].m = x.m]
               [] Fault = "hold"      -> IF x.v = 0 THEN [clean EXCEPT ![1] = regs[1]] ELSE clean
               [] Fault = "stall"     -> IF x.v = 0 /\ rst = 0 THEN regs ELSE clean
    IN /\ Len(h) < Cycles
       /\ regs' = c
       /\ LET o == Leaves(reg, regs, Part, 2, x)
          IN h' = Append(h, [rst |-> rst, v |-> x.v, m |-> x.m, d |-> x.d, ov |-> o.v, om |-> o.m, od |-> o.d])
       /\ UNCHANGED reg

\* Metadata distinguishes the samples.
Next == \E rst \in {0, 1}, v \in {0, 1}, d \in {0, 1} :
            Tick(rst, [v |-> v, m |-> Len(h), d |-> d])
Spec == Init /\ [][Next]_vars

Delivered == Delivers(h, Latency(reg), Fn)

(* Invariants on what has been seen so far, for a direct reading of the      *)
(* property: nothing is duplicated, reordered or invented.                  *)
Outs == {t \in (FirstReset(h, 1) + 1)..Len(h) : h[t].ov = 1}
Once == \A s, t \in Outs : s < t => h[s].om < h[t].om
Genuine == \A t \in Outs : \E s \in 1..t : h[s].v = 1 /\ h[s].m = h[t].om /\ h[t].od = Fn(h[s].d)
AfterReset == \A t \in Outs : \A s \in FirstReset(h, 1)..(t - 1) :
                h[s].rst = 1 /\ Latency(reg) > 0 => h[t].om > h[s].m
\* All valid samples of a reset-free stretch have come out, except the last L.
Complete == \A s \in (FirstReset(h, 1) + 1)..Len(h) :
              (h[s].v = 1 /\ s + Latency(reg) <= Len(h)
               /\ \A j \in s..(s + Latency(reg)) : h[j].rst = 0)
              => \E t \in s..Len(h) : h[t].ov = 1 /\ h[t].om = h[s].m
=============================================================================
