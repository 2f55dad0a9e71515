---------------------------- MODULE MC_Requests -----------------------------
(* The domain of the operations: a request without a reason against it has  *)
(* exactly one answer, which the result format holds; the others do not.    *)
EXTENDS NativeInt, TLC
CONSTANTS MaxW, Fs
INSTANCE Requests WITH NOf <- IOf, NAdd <- IAdd, NSub <- ISub, NMul <- IMul,
    NNeg <- INeg, NCmp <- ICmp, NShl <- IShl, NFlr <- IFlr, NLow <- ILow, NOdd <- IOdd

VARIABLES fa, fr, rnd, sat
vars == <<fa, fr, rnd, sat>>

Src == {f \in {0, 1} \X (-4..4) \X Fs : OkFmt(f) /\ f[1] + f[2] + f[3] <= MaxW}
\* any fields at all
Targets(f) == {-1, 0, 1, 2} \X ((f[2] - 3)..(f[2] + 2)) \X ((f[3] - 2)..(f[3] + 2))
Init == fa \in Src /\ fr \in Targets(fa) /\ rnd = 0 /\ sat = 0
Next == \/ rnd < 6 /\ rnd' = rnd + 1 /\ UNCHANGED <<fa, fr, sat>>
        \/ rnd = 6 /\ sat < 3 /\ sat' = sat + 1 /\ rnd' = 0 /\ UNCHANGED <<fa, fr>>
Spec == Init /\ [][Next]_vars

Req(op, v) == [op |-> op, src |-> "py", fa |-> IF op = "from_integer" THEN <<>> ELSE fa, fb |-> <<>>, fr |-> fr, rnd |-> rnd, sat |-> sat,
               a |-> [sh |-> <<>>, v |-> <<v>>, F |-> fa[3]], b |-> [sh |-> <<>>, v |-> <<>>, F |-> 0],
               sel |-> [sh |-> <<>>, v |-> <<>>], k |-> [sh |-> <<>>, v |-> <<>>], x |-> <<1, 0>>, fs |-> <<>>,
               ra |-> IF op = "from_integer" THEN "" ELSE "narrow", rb |-> ""]
Ok(op) == Reasons(Req(op, 0)) = {}
A0 == F3(fa)
Vals == MinM(A0)..MaxM(A0)

\* The two formulations of the domain agree.
Same == \A op \in {"round", "saturate", "resize", "in_range", "from_real", "pipe_round", "pipe_sat", "pipe_resize", "neg", "abs"} :
            /\ Ok(op) <=> (fr[1] \in {0, 1} /\ fr[2] + fr[3] >= 0 /\ Meaningful(Req(op, 0)))
Total ==
    /\ Ok("round") => \A m \in Vals : InRangeM(RoundM(m, fa[3], fr[3], rnd), F3(fr))
    /\ Ok("saturate") => \A m \in Vals : /\ InRangeM(SatM(m, F3(fr), sat), F3(fr))
                                         /\ SatM(m, F3(fr), sat) = ResizeM(m, fa[3], F3(fr), rnd, sat)
    /\ Ok("resize") => \A m \in Vals : InRangeM(ResizeM(m, fa[3], F3(fr), rnd, sat), F3(fr))
    /\ Ok("from_real") => \A m \in -20..20 : InRangeM(FromRealM(m, fa[3], F3(fr)), F3(fr))
\* Resizing is defined between any two formats; only the operand must not be empty.
Resizable == (OkFmt1(fa) /\ OkFmt(fr)) <=> Ok("resize")
OneRound == (OkFmt1(fa) /\ Ok("round")) => \A g \in Targets(fa) : (g # fr /\ g[3] = fr[3]) =>
                Reasons([Req("round", 0) EXCEPT !.fr = g]) # {}
Integers == OkFmt(fr) => \A m \in -20..20 : Reasons(Req("from_integer", m)) = {} <=> WrapM(BitsOf(m, F3(fr)), F3(fr)) = m
=============================================================================
