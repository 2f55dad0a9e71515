------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* The contract of every call of en_cl_fix: which requests are meaningful, *)
(* and for those the exact result, its format, its representation, its     *)
(* shape and whether a saturation warning is due.                          *)
(*                                                                         *)
(* A request is a record                                                   *)
(*   op            name of the operation                                   *)
(*   fa, fb, fr    formats as <<S, I, F>>; fr = <<>>: none requested       *)
(*   rnd, sat      modes                                                   *)
(*   a, b          operands [sh |-> shape, v |-> elements, F |-> scale]    *)
(*   sel, k        selector / shift amounts [sh, v]                        *)
(*   x             list of further integers (op specific)                  *)
(* Elements are integer mantissas; element v of an operand denotes         *)
(* v * 2^-F (F is the format's F for fixed-point data, and whatever makes  *)
(* v integral for real-valued data).                                       *)
(***************************************************************************)
EXTENDS FixSem, Shapes

F3(t) == Fmt(t[1], t[2], t[3])
OkFmt(t) == t[1] \in {0, 1} /\ t[2] + t[3] >= 0
OkFmt1(t) == OkFmt(t) /\ t[1] + t[2] + t[3] > 0

Binary  == {"add", "sub", "addsub", "mult"}
Unary   == {"neg", "abs"}
Arith   == Binary \cup Unary \cup {"shift"}
FmtOps  == {"add_fmt", "sub_fmt", "addsub_fmt", "mult_fmt", "neg_fmt", "abs_fmt",
            "shift_fmt", "round_fmt", "union_fmt"}

SeqMin(s) == LET S == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in S : \A y \in S : x <= y
SeqMax(s) == LET S == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in S : \A y \in S : x >= y

----------------------------------------------------------------------------
(* Format of the exact result. *)
MidFmt(q) ==
    CASE q.op = "add"    -> AddFmt(F3(q.fa), F3(q.fb))
      [] q.op = "sub"    -> SubFmt(F3(q.fa), F3(q.fb))
      [] q.op = "addsub" -> AddSubFmt(F3(q.fa), F3(q.fb))
      [] q.op = "mult"   -> MultFmt(F3(q.fa), F3(q.fb))
      [] q.op = "neg"    -> NegFmt(F3(q.fa))
      [] q.op = "abs"    -> AbsFmt(F3(q.fa))
      [] q.op = "shift"  -> ShiftFmt(F3(q.fa), SeqMin(q.k.v), SeqMax(q.k.v))

(* Format of the returned data. *)
ResFmt(q) == IF q.fr = <<>> THEN MidFmt(q) ELSE F3(q.fr)

(* Shape of the returned data. *)
ResShape(q) ==
    CASE q.op \in {"add", "sub", "mult", "compare"} -> Broadcast(q.a.sh, q.b.sh)
      [] q.op = "addsub" -> Broadcast(Broadcast(q.a.sh, q.b.sh), q.sel.sh)
      [] q.op = "shift"  -> Broadcast(q.a.sh, q.k.sh)
      [] q.op \in {"max_value", "min_value"} -> <<>>
      [] q.op \in {"zeros", "random", "random_ends", "random_twice"} -> q.x
      \* packages append the dimension of the words, objects prepend it
      [] q.op = "pack"   -> IF q.src = "wide" THEN <<Words(F3(q.fa))>> \o q.a.sh
                            ELSE q.a.sh \o <<Words(F3(q.fa))>>
      [] q.op = "unpack" -> IF q.src = "wide" THEN Tail(q.a.sh)
                            ELSE SubSeq(q.a.sh, 1, Len(q.a.sh) - 1)
      [] OTHER -> q.a.sh

A(q, i, t) == q.a.v[Source(i, q.a.sh, t)]
B(q, i, t) == q.b.v[Source(i, q.b.sh, t)]

(* Exact result of element i, as <<mantissa, fraction bits>>. *)
ExactX(q, i, t) ==
    LET fa == F3(q.fa)
        m  == A(q, i, t)
    IN CASE q.op = "add"  -> AddX(m, fa, B(q, i, t), F3(q.fb))
         [] q.op = "sub"  -> SubX(m, fa, B(q, i, t), F3(q.fb))
         [] q.op = "addsub" ->
              IF q.sel.v[Source(i, q.sel.sh, t)] = 1
              THEN AddX(m, fa, B(q, i, t), F3(q.fb))
              ELSE SubX(m, fa, B(q, i, t), F3(q.fb))
         [] q.op = "mult" -> MultX(m, fa, B(q, i, t), F3(q.fb))
         [] q.op = "neg"  -> NegX(m, fa)
         [] q.op = "abs"  -> AbsX(m, fa)
         [] q.op = "shift" -> ShiftX(m, fa, q.k.v[Source(i, q.k.sh, t)])
         [] q.op \in {"resize", "round", "saturate", "in_range"} -> <<m, fa.F>>

(* Packing: word i of the packed array, and element i of the unpacked one. *)
PackedWord(q, i) ==
    LET n == Words(F3(q.fa))
        k == Size(q.a.sh)
    IN IF q.src = "wide" THEN WordOf(q.a.v[((i - 1) % k) + 1], F3(q.fa), ((i - 1) \div k) + 1)
       ELSE WordOf(q.a.v[((i - 1) \div n) + 1], F3(q.fa), ((i - 1) % n) + 1)

RECURSIVE Concat(_, _)
Concat(w(_), n) == IF n = 0 THEN NZero ELSE NAdd(Concat(w, n - 1), NShl(w(n), 64 * (n - 1)))

UnpackedM(q, i) ==
    LET n == IF q.src = "wide" THEN q.a.sh[1] ELSE q.a.sh[Len(q.a.sh)]
        k == Size(q.a.sh) \div n
        word(j) == IF q.src = "wide" THEN q.a.v[(j - 1) * k + i] ELSE q.a.v[(i - 1) * n + j]
    IN WrapM(Concat(word, n), F3(q.fr))

Cmps == <<"=", "!=", "<", ">", "<=", ">=">>

(* Mantissa of element i of the returned data (of shape t, in format r). *)
DataM(q, i, t, r) ==
       CASE q.op \in Arith \cup {"resize"} ->
              LET x == ExactX(q, i, t) IN ResizeM(x[1], x[2], r, q.rnd, q.sat)
         [] q.op = "round"     -> RoundM(A(q, i, t), q.fa[3], r.F, q.rnd)
         [] q.op = "saturate"  -> SatM(A(q, i, t), r, q.sat)
         [] q.op = "from_real" -> FromRealM(A(q, i, t), q.a.F, r)
         [] q.op = "from_integer" -> A(q, i, t)
         [] q.op = "max_value" -> MaxM(r)
         [] q.op = "min_value" -> MinM(r)
         [] q.op = "zeros"     -> NZero
         [] q.op = "unpack"    -> UnpackedM(q, i)

(* Number (or truth value 0/1) returned by a query, as <<mantissa, F>>. *)
QueryX(q, i, t) ==
    CASE q.op = "in_range"   -> <<NOf(IF FitsM(A(q, i, t), q.fa[3], F3(q.fr), q.rnd) THEN 1 ELSE 0), 0>>
      [] q.op = "to_integer" -> <<A(q, i, t), 0>>
      [] q.op = "to_real"    -> <<A(q, i, t), q.fa[3]>>
      [] q.op = "compare"    -> <<NOf(IF CompareM(Cmps[q.x[1]], A(q, i, t), F3(q.fa), B(q, i, t), F3(q.fb))
                                        THEN 1 ELSE 0), 0>>
      [] q.op = "pack"       -> <<PackedWord(q, i), 0>>
      [] q.op = "pipe_round" -> <<NOf(RoundStages(F3(q.fa), q.fr[3], q.rnd)), 0>>
      [] q.op = "pipe_sat"   -> <<NOf(SatStages(F3(q.fa), F3(q.fr), q.sat)), 0>>
      [] q.op = "pipe_resize" -> <<NOf(ResizeStages(F3(q.fa), F3(q.fr), q.rnd, q.sat)), 0>>
      [] q.op = "sign"       -> <<NOf(IF NLt(A(q, i, t), NZero) THEN 1 ELSE 0), 0>>
DataOps == Arith \cup {"resize", "round", "saturate", "from_real", "from_integer",
                       "max_value", "min_value", "zeros", "unpack"}
PipeOps == {"pipe_round", "pipe_sat", "pipe_resize"}
QueryOps == {"in_range", "to_integer", "to_real", "compare", "sign", "pack"} \cup PipeOps

(* Is a saturation warning due, because of element i (r: format of the result)? *)
WarnDueAt(q, i, t, r) ==
    /\ Warns(q.sat)
    /\ CASE q.op \in Arith \cup {"resize"} ->
              LET x == ExactX(q, i, t) IN ~FitsM(x[1], x[2], r, q.rnd)
         [] q.op = "saturate"  -> ~InRangeM(A(q, i, t), r)
         [] q.op = "from_real" -> RealOutOfRange(A(q, i, t), q.a.F, r)
         [] OTHER -> FALSE

WarnDue(q, t, r) == Warns(q.sat) /\ \E i \in 1..Size(t) : WarnDueAt(q, i, t, r)

(* Format functions. *)
FmtOf(q) ==
    CASE q.op = "add_fmt"    -> AddFmt(F3(q.fa), F3(q.fb))
      [] q.op = "sub_fmt"    -> SubFmt(F3(q.fa), F3(q.fb))
      [] q.op = "addsub_fmt" -> AddSubFmt(F3(q.fa), F3(q.fb))
      [] q.op = "mult_fmt"   -> MultFmt(F3(q.fa), F3(q.fb))
      [] q.op = "neg_fmt"    -> NegFmt(F3(q.fa))
      [] q.op = "abs_fmt"    -> AbsFmt(F3(q.fa))
      [] q.op = "shift_fmt"  -> ShiftFmt(F3(q.fa), q.x[1], q.x[2])
      [] q.op = "round_fmt"  -> RoundFmt(F3(q.fa), q.x[1], q.rnd)
      [] q.op = "union_fmt"  -> UnionAll([i \in 1..Len(q.fs) |-> F3(q.fs[i])])

(***************************************************************************)
(* Which requests are meaningful.                                          *)
(***************************************************************************)
\* Operand formats of arithmetic and format functions have at least one bit.
MeaningfulFmts(q) ==
    CASE q.op \in Binary \cup {"add_fmt", "sub_fmt", "addsub_fmt", "mult_fmt"} -> OkFmt1(q.fa) /\ OkFmt1(q.fb)
      [] q.op \in Unary \cup {"neg_fmt", "abs_fmt", "resize", "round", "in_range", "round_fmt"} \cup PipeOps -> OkFmt1(q.fa)
      [] q.op = "shift"     -> OkFmt1(q.fa)
      [] q.op = "shift_fmt" -> OkFmt1(q.fa) /\ q.x[1] <= q.x[2]
      [] q.op \in {"saturate", "to_integer", "to_real", "compare", "sign"} -> OkFmt(q.fa)
      [] OTHER -> TRUE

Meaningful(q) ==
    /\ MeaningfulFmts(q)
    /\ (q.op \in DataOps \cup QueryOps /\ q.fr # <<>>) => OkFmt(q.fr)
    /\ CASE q.op \in {"round", "pipe_round"} -> F3(q.fr) = RoundFmt(F3(q.fa), q.fr[3], q.rnd)
         [] q.op \in {"saturate", "pipe_sat"} -> q.fr[3] = q.fa[3]
         [] q.op = "from_real" -> Clips(q.sat)
         [] q.op = "from_integer" -> \A i \in 1..Len(q.a.v) : InRangeM(q.a.v[i], F3(q.fr))
         [] q.op = "format"    -> OkFmt(q.fa)
         [] q.op = "pack"      -> IsWide(F3(q.fa))
         [] q.op = "unpack"    -> IsWide(F3(q.fr))
         [] OTHER -> TRUE
=============================================================================
