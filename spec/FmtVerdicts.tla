---------------------------- MODULE FmtVerdicts -----------------------------
(***************************************************************************)
(* Verdicts on recorded result formats.  A line holds one request          *)
(*   op, fa, fb, fs, rnd, x   (x: shift range or fraction bits)            *)
(* and what each implementation returned:                                  *)
(*   outs = <<[src, st, f]>>    f = <<S, I, F>>                            *)
(* Clauses:                                                                *)
(*   refused  a well-formed request was refused                            *)
(*   small    some exact result is not a value of the format      (C01)    *)
(*   differ   the implementations disagree                        (C01)    *)
(*   sign, int, frac   larger than necessary                      (C02)    *)
(*   bad      what was returned is no format at all                        *)
(***************************************************************************)
EXTENDS Formats

T3(t) == Fmt(t[1], t[2], t[3])
Corner == {"add", "sub", "addsub", "mult", "neg", "abs"}

Small(e, g) ==
    CASE e.op \in Corner  -> ~Holds(e.op, T3(e.fa), T3(e.fb), g)
      [] e.op = "shift"   -> ~HoldsAll(ShiftExtremes(T3(e.fa), e.x[1], e.x[2]), g)
      [] e.op = "round"   -> g.F # e.x[1] \/ ~HoldsAll(RoundExtremes(T3(e.fa), e.x[1], e.rnd), g)
      [] e.op = "union"   -> \E i \in 1..Len(e.fs) : \E m \in Cand(T3(e.fs[i])) : ~Represents(g, m, e.fs[i][3])

Field(e, j) == {e.fs[i][j] : i \in 1..Len(e.fs)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Large(e, g) ==
    CASE e.op \in Corner ->
           (IF TightS(e.op, T3(e.fa), T3(e.fb), g) THEN {} ELSE {"sign"})
           \cup (IF TightI(e.op, T3(e.fa), T3(e.fb), g) THEN {} ELSE {"int"})
           \cup (IF TightF(e.op, T3(e.fa), T3(e.fb), g) THEN {} ELSE {"frac"})
      [] e.op = "shift" ->
           LET xs == ShiftExtremes(T3(e.fa), e.x[1], e.x[2])
           IN (IF g.S = e.fa[1] THEN {} ELSE {"sign"})
              \cup (IF TightInts(xs, g) THEN {} ELSE {"int"})
              \cup (IF TightGrid(xs, g) THEN {} ELSE {"frac"})
      [] e.op = "round" ->
           (IF g.S = e.fa[1] THEN {} ELSE {"sign"})
           \cup (IF g.I <= RoundIntLimit(T3(e.fa), e.x[1], e.rnd) THEN {} ELSE {"int"})
           \cup (IF g.F = e.x[1] THEN {} ELSE {"frac"})
      [] e.op = "union" ->
           (IF g.S = MaxOf(Field(e, 1)) THEN {} ELSE {"sign"})
           \cup (IF g.I = MaxOf(Field(e, 2)) THEN {} ELSE {"int"})
           \cup (IF g.F = MaxOf(Field(e, 3)) THEN {} ELSE {"frac"})

One(e, o) ==
    IF o.st # "ok" THEN {"refused"}
    ELSE IF Len(o.f) # 3 \/ ~ValidFmt(T3(o.f)) THEN {"bad"}
    ELSE (IF Small(e, T3(o.f)) THEN {"small"} ELSE {}) \cup Large(e, T3(o.f))

Verdict(e) ==
    UNION {One(e, e.outs[i]) : i \in 1..Len(e.outs)}
    \cup (IF \E i \in 1..Len(e.outs) : e.outs[i].f # e.outs[1].f THEN {"differ"} ELSE {})
=============================================================================
