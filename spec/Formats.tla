------------------------------- MODULE Formats ------------------------------
(* When is a result format right?  Declarative verdicts on a format that    *)
(* somebody (the real code) computed: it must hold every exact result (C01) *)
(* and must not be larger than necessary (C02).                             *)
EXTENDS FixSem

\* Operand values that decide: the bounds, zero and the units of the grid.
Cand(f) == {MinM(f), MaxM(f), NZero}
           \cup (IF f.I + f.F > 0 THEN {NOne} ELSE {})
           \cup (IF f.S = 1 THEN {NNeg(NOne)} ELSE {})

\* Exact results of an operation for one pair of operand values.
Results(op, m, fa, n, fb) ==
    CASE op = "add"    -> {AddX(m, fa, n, fb)}
      [] op = "sub"    -> {SubX(m, fa, n, fb)}
      [] op = "addsub" -> {AddX(m, fa, n, fb), SubX(m, fa, n, fb)}
      [] op = "mult"   -> {MultX(m, fa, n, fb)}
      [] op = "neg"    -> {NegX(m, fa)}
      [] op = "abs"    -> {AbsX(m, fa)}

BinaryOp(op) == op \in {"add", "sub", "addsub", "mult"}

Extremes(op, fa, fb) ==
    UNION {Results(op, m, fa, n, fb) : m \in Cand(fa), n \in IF BinaryOp(op) THEN Cand(fb) ELSE {NZero}}

OpFmt(op, fa, fb) ==
    CASE op = "add"    -> AddFmt(fa, fb)
      [] op = "sub"    -> SubFmt(fa, fb)
      [] op = "addsub" -> AddSubFmt(fa, fb)
      [] op = "mult"   -> MultFmt(fa, fb)
      [] op = "neg"    -> NegFmt(fa)
      [] op = "abs"    -> AbsFmt(fa)

Neg(x) == NLt(x[1], NZero)
HoldsAll(xs, g) == \A x \in xs : Represents(g, x[1], x[2])
OnGrid(x, F) == F >= x[2] \/ NLow(x[1], x[2] - F) = NZero
InBounds(x, g) == ValCmp(MinM(g), g.F, x[1], x[2]) <= 0 /\ ValCmp(x[1], x[2], MaxM(g), g.F) <= 0

Holds(op, fa, fb, g) == HoldsAll(Extremes(op, fa, fb), g)

(* neg and abs are always signed (abs is the union of the operand and of its *)
(* negation); the others are signed iff some exact result is negative.       *)
TightS(op, fa, fb, g) ==
    g.S = IF op \in {"neg", "abs"} \/ (\E x \in Extremes(op, fa, fb) : Neg(x)) THEN 1 ELSE 0

\* One integer bit less would not do (or would leave fewer than 0 bits).  The
\* grid plays no role here: bounds are compared for a format without upper
\* limit on fraction bits, i.e. results are below 2^I (and at least -2^I).
FitsInt(x, I) == /\ ValCmp(x[1], x[2], NOne, -I) < 0
                 /\ ValCmp(x[1], x[2], NNeg(NOne), -I) >= 0
TightInts(xs, g) == g.I + g.F = 0 \/ \E x \in xs : ~FitsInt(x, g.I - 1)
TightI(op, fa, fb, g) == TightInts(Extremes(op, fa, fb), g)

\* One fraction bit less would lose something.
TightGrid(xs, g) == \E x \in xs : ~OnGrid(x, g.F - 1)
TightF(op, fa, fb, g) == TightGrid(Extremes(op, fa, fb), g)

(* Shift by any amount in lo..hi. *)
ShiftExtremes(fa, lo, hi) == {ShiftX(m, fa, k) : m \in Cand(fa), k \in {lo, hi}}
(* Rounding to rF fraction bits. *)
RoundExtremes(fa, rF, rnd) == {<<RoundM(m, fa.F, rF, rnd), rF>> : m \in Cand(fa)}
RoundIntLimit(fa, rF, rnd) ==
    LET grow == IF rnd = Trunc \/ rF >= fa.F THEN 0 ELSE 1
    IN IMax(fa.I + grow, 1 - fa.S - rF)
=============================================================================
