----------------------------- MODULE TraceCosim -----------------------------
(***************************************************************************)
(* Conformance of the generated co-simulation data.  Lines:                *)
(*   scenario  its parameters and its data v                               *)
(*   list      all scenarios of a generator (keys)                         *)
(* Clauses:                                                                *)
(*   generator  the generator failed, or left data that cannot be read     *)
(*   missing    a scenario of the grid is not there                        *)
(*   entries    not one entry per combination of operand values            *)
(*   value      an entry is not the specified result                       *)
(***************************************************************************)
EXTENDS NativeInt, TraceRun
INSTANCE Cosim WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd

Verdict(e) ==
    IF e.st # "ok" THEN {"generator"}
    ELSE IF e.line = "list"
    THEN IF Grid(e.op) \subseteq {e.keys[i] : i \in 1..Len(e.keys)} THEN {} ELSE {"missing"}
    ELSE IF Len(e.v) # Entries(e) THEN {"entries"}
    ELSE IF \A j \in 1..Len(e.v) : e.v[j] = Entry(e, j - 1) THEN {} ELSE {"value"}

Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
