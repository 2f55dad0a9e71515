------------------------------- MODULE Cosim --------------------------------
(***************************************************************************)
(* The co-simulation reference data: what the generators bittrue/cosim/*   *)
(* must write.  The VHDL testbenches iterate over the same operands in the *)
(* same order and compare with this data, so the bit-true guarantee of the *)
(* HDL side is as good as this data is exhaustive and true.                *)
(*                                                                         *)
(* A scenario is [op, a, b, r, rnd, sat, sh]: the formats, the modes and   *)
(* the shift (fields that an operation lacks are <<>> or 0).  Its data has *)
(* one entry per combination of operand values: the first operand counts   *)
(* fastest, then the second, then (for addsub) subtraction before addition.*)
(***************************************************************************)
EXTENDS FixSem

Ops1 == {"abs", "neg", "resize", "round", "saturate", "from_real", "shift"}
Ops2 == {"add", "sub", "mult", "addsub", "compare"}
CosimOps == Ops1 \cup Ops2

G3(t) == Fmt(t[1], t[2], t[3])

----------------------------------------------------------------------------
(* Enumeration of the operands: entry j = 0, 1, ... of a scenario.         *)

Count(f) == 2 ^ Width(f)
ValueAt(f, k) == NAdd(MinM(f), NOf(k))

ANum(q) == Count(G3(q.a))
BNum(q) == IF q.op \in Ops2 THEN Count(G3(q.b)) ELSE 1
Entries(q) == ANum(q) * BNum(q) * (IF q.op = "addsub" THEN 2 ELSE 1)

AAt(q, j) == ValueAt(G3(q.a), j % ANum(q))
BAt(q, j) == ValueAt(G3(q.b), (j \div ANum(q)) % BNum(q))
AddAt(q, j) == j \div (ANum(q) * BNum(q)) = 1

----------------------------------------------------------------------------
(* The specified entry.  Comparisons are packed: =, /=, <, >, <=, >= are   *)
(* bits 0 to 5.                                                            *)

Bit(c, k) == IF c THEN 2 ^ k ELSE 0
Into(x, q) == ResizeM(x[1], x[2], G3(q.r), q.rnd, q.sat)

Entry(q, j) ==
    LET a == G3(q.a)
        m == AAt(q, j)
    IN CASE q.op = "abs"       -> Into(AbsX(m, a), q)
         [] q.op = "neg"       -> Into(NegX(m, a), q)
         [] q.op = "shift"     -> Into(ShiftX(m, a, q.sh), q)
         [] q.op = "resize"    -> Into(<<m, a.F>>, q)
         [] q.op = "round"     -> RoundM(m, a.F, G3(q.r).F, q.rnd)
         [] q.op = "saturate"  -> SatM(m, G3(q.r), q.sat)
         [] q.op = "from_real" -> FromRealM(m, a.F, G3(q.r))
         [] q.op = "add"       -> Into(AddX(m, a, BAt(q, j), G3(q.b)), q)
         [] q.op = "sub"       -> Into(SubX(m, a, BAt(q, j), G3(q.b)), q)
         [] q.op = "mult"      -> Into(MultX(m, a, BAt(q, j), G3(q.b)), q)
         [] q.op = "addsub"    -> Into(IF AddAt(q, j) THEN AddX(m, a, BAt(q, j), G3(q.b))
                                       ELSE SubX(m, a, BAt(q, j), G3(q.b)), q)
         [] q.op = "compare"   ->
              LET c == ValCmp(m, a.F, BAt(q, j), G3(q.b).F)
              IN Bit(c = 0, 0) + Bit(c # 0, 1) + Bit(c < 0, 2) + Bit(c > 0, 3) + Bit(c <= 0, 4) + Bit(c >= 0, 5)

----------------------------------------------------------------------------
(* The scenarios that must be there, as <<a, b, r, rnd, sat, sh>>.         *)

Usable(vals) == {t \in {0, 1} \X vals \X vals : t[1] + t[2] + t[3] >= 1}
Tuples(A, B, R, rnds, sats, shs) == {<<a, b, r, d, s, k>> : a \in A, b \in B, r \in R, d \in rnds, s \in sats, k \in shs}
None == {<<>>}

Grid(op) ==
    CASE op \in {"add", "sub", "addsub"} ->
           Tuples(Usable(-2..2), Usable(-2..2), Usable(-2..2), {Trunc}, {SatNone}, {0})
      [] op = "mult" ->
           Tuples(Usable(-2..2), Usable(-2..2), Usable({-4, -2, 0, 2, 4}), {Trunc}, {SatNone}, {0})
      [] op = "compare" -> Tuples(Usable(-3..3), Usable(-3..3), None, {0}, {0}, {0})
      [] op \in {"abs", "neg"} ->
           Tuples(Usable(-3..3), None, Usable(-3..3), {Trunc, NonSymPos}, {SatNone, SatSat}, {0})
      [] op = "from_real" -> Tuples(Usable(-4..4), None, Usable(-4..4), {0}, {SatSat, SatBoth}, {0})
      [] op = "shift" -> Tuples(Usable(-3..3), None, Usable(-2..2), {Trunc}, {SatNone}, -2..2)
      [] op = "resize" -> Tuples(Usable({-5, 0, 5}), None, Usable({-5, 0, 5}), RoundModes, SatModes, {0})
      [] op = "round" ->
           UNION {{<<a, <<>>, LET r == RoundFmt(G3(a), rF, d) IN <<r.S, r.I, r.F>>, d, 0, 0>> : rF \in -5..5, d \in RoundModes}
                  : a \in Usable(-5..5)}
      [] op = "saturate" ->
           {t \in Tuples(Usable(-4..4), None, Usable(-4..4), {0}, SatModes, {0}) : t[1][3] = t[3][3]}
=============================================================================
