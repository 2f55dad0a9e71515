----------------------------- MODULE Verdicts ------------------------------
(***************************************************************************)
(* Verdicts on recorded calls with respect to Calls.                       *)
(*                                                                         *)
(* Every line of the trace is a request together with the outcome that the *)
(* real code produced:                                                     *)
(*   src   who executed it: "py" (function interface), "narrow"/"wide"     *)
(*         (objects), "vhdl"                                               *)
(*   st    "ok", or "refused" (an error was raised and no value returned)  *)
(*   kind  of the result:                                                  *)
(*         "data"  v: mantissas scaled by 2^-F, rep: representation        *)
(*         "bits"  v: unsigned bit patterns of w bits                      *)
(*         "num"   v: numbers scaled by 2^-F                               *)
(*         "fmt"   x: <<S, I, F>>                                          *)
(*         "none"  nothing usable came back                                *)
(*   warn  1 if a saturation warning was emitted                           *)
(*   ws    for VHDL: the same for every element                            *)
(*                                                                         *)
(* The verdict on a line is total: the set of violated clauses.            *)
(*   status  a meaningful request was refused / a meaningless one was not  *)
(*   value   some returned element is not the specified one                *)
(*   shape   wrong shape or number of elements                             *)
(*   fmt     wrong result format or width                                  *)
(*   rep     data is not in the representation of its format, or off grid  *)
(*   warn    a warning is missing or spurious                              *)
(*   even    generated data is not evenly distributed                      *)
(*   lossy   a conversion that lost precision did not warn                 *)
(* Only clauses in Claims (those of the property being checked) count.     *)
(***************************************************************************)
EXTENDS Calls

RepOf(f) == IF IsWide(f) THEN "wide" ELSE "narrow"

ShapeOK(e, t) == e.r.sh = t /\ Len(e.r.v) = Size(t)

DataVerdict(e) ==
    LET t == ResShape(e)
        f == ResFmt(e)
        n == Size(t)
    IN  IF e.r.kind = "none" THEN {"value"}
        ELSE
        (IF ShapeOK(e, t) THEN {} ELSE {"shape"})
        \cup
        (IF e.r.kind = "bits"
         THEN (IF e.r.w = Width(f) THEN {} ELSE {"fmt"})
              \cup (IF /\ ShapeOK(e, t)
                       /\ \A i \in 1..n : e.r.v[i] = BitsOf(DataM(e, i, t, f), f) THEN {} ELSE {"value"})
         ELSE (IF e.r.F = f.F THEN {} ELSE {"rep"})
              \cup (IF e.src = "py" /\ e.r.rep # RepOf(f) THEN {"rep"} ELSE {})
              \cup (IF e.src # "py" /\ e.r.rep # e.src THEN {"rep"} ELSE {})
              \cup (IF e.r.x = <<>> \/ F3(e.r.x) = f THEN {} ELSE {"fmt"})
              \cup (IF /\ ShapeOK(e, t)
                       /\ \A i \in 1..n : IF e.r.F = f.F THEN e.r.v[i] = DataM(e, i, t, f)
                                          ELSE ValCmp(e.r.v[i], e.r.F, DataM(e, i, t, f), f.F) = 0
                    THEN {} ELSE {"value"}))
        \cup
        (IF e.src = "vhdl"
         THEN (IF /\ Len(e.ws) = n
                  /\ \A i \in 1..n : (e.ws[i] = 1) = WarnDueAt(e, i, t, f) THEN {} ELSE {"warn"})
         ELSE (IF (e.warn = 1) = WarnDue(e, t, f) THEN {} ELSE {"warn"}))

\* A packed scalar may be returned as an array of one element.
QueryShapeOK(e, t) ==
    /\ Len(e.r.v) = Size(t)
    /\ \/ e.r.sh = t
       \/ e.op = "pack" /\ e.a.sh = <<>> /\ e.src = "py" /\ e.r.sh = <<1>> \o t

QueryVerdict(e) ==
    LET t == ResShape(e)
        n == Size(t)
    IN  IF e.r.kind = "none" THEN {"value"}
        ELSE (IF QueryShapeOK(e, t) THEN {} ELSE {"shape"})
             \cup (IF /\ QueryShapeOK(e, t)
                      /\ \A i \in 1..n : LET x == QueryX(e, i, t)
                                         IN ValCmp(e.r.v[i], e.r.F, x[1], x[2]) = 0
                   THEN {} ELSE {"value"})
             \cup (IF e.warn = 0 THEN {} ELSE {"warn"})

\* Random data, sampled. Bins of equal probability: the values themselves (narrow formats of up to 4 bits), otherwise the
\* sixteenths of the range and the residues modulo 4. A sample of N >= 800 draws that puts fewer than N/4n or more than
\* 2N/n draws into one of n equal bins is off by more than 7 standard deviations.
EvenBins(N, n, bin) ==
    \A b \in 0..(n - 1) : LET nb == NOf(b)
                              c == Cardinality({i \in 1..N : bin[i] = nb})
                          IN  4 * n * c >= N /\ n * c <= 2 * N

Pairs(N, bit) == [i \in 1..N |-> NAdd(NMul(NOf(2), bit[i]), bit[IF i = N THEN 1 ELSE i + 1])]

Even(e, f) ==
    LET w == Width(f)
        N == Len(e.r.v)
        code == [i \in 1..N |-> NSub(e.r.v[i], MinM(f))]       \* non-negative, below 2^w
    IN  IF N < 50 * (IF w <= 4 THEN 2^w ELSE 16) THEN TRUE
        ELSE /\ IF w <= 4 THEN EvenBins(N, 2^w, code)
                ELSE /\ EvenBins(N, 16, [i \in 1..N |-> NFlr(code[i], w - 4)])
                     /\ EvenBins(N, 4, [i \in 1..N |-> NLow(code[i], 2)])
             \* neither the lowest nor the highest bit depends on that of the element before
             /\ N >= 800 => /\ EvenBins(N, 4, Pairs(N, [i \in 1..N |-> NLow(code[i], 1)]))
                            /\ EvenBins(N, 4, Pairs(N, [i \in 1..N |-> NFlr(code[i], w - 1)]))
                            /\ w > 4 => /\ EvenBins(N, 4, [i \in 1..N |-> NAdd(NMul(NOf(2), NFlr(code[i], w - 1)), NLow(code[i], 1))])
                                        \* bits next to word boundaries, and bits k and k + 32 are independent
                                        /\ \A k \in {7, 15, 20, 31, 32, 63, 95, 127} : k + 33 <= w =>
                                              EvenBins(N, 4, [i \in 1..N |-> NAdd(NMul(NOf(2), NLow(NFlr(code[i], k), 1)), NLow(NFlr(code[i], k + 32), 1))])

\* Two of at most 1000 draws from a format of at least 50 bits are the same with a probability below 10^-9.
Distinct(e, f) ==
    LET N == Len(e.r.v)
    IN  (Width(f) >= 50 /\ N <= 1000) => Cardinality({e.r.v[i] : i \in 1..N}) = N

\* Rows drawn by one call after another (at least 200 bits each): no row is that of another call.
RowsVerdict(e) ==
    LET f == F3(e.fr)
        k == e.x[1]
        m == Size(Tail(e.x))
        row(j) == SubSeq(e.r.v, (j - 1) * m + 1, j * m)
    IN  IF e.r.kind = "none" THEN {"value"}
        ELSE (IF ShapeOK(e, e.x) THEN {} ELSE {"shape"})
             \cup (IF /\ Len(e.r.v) = Size(e.x)
                      /\ m * Width(f) >= 200
                      /\ \E i, j \in 1..k : i < j /\ row(i) = row(j) THEN {"even"} ELSE {})

\* Draws made from entropy that leads to the ends of the range (for the generators that are controlled): one end is
\* reached if and only if the other one is.
EndsVerdict(e) ==
    LET f == F3(e.fr)
        at(x) == \E i \in 1..Len(e.r.v) : ValCmp(e.r.v[i], e.r.F, x, f.F) = 0
    IN  IF e.r.kind = "none" THEN {"value"}
        ELSE (IF at(MinM(f)) = at(MaxM(f)) THEN {} ELSE {"even"})
             \cup (IF \A i \in 1..Len(e.r.v) : Represents(f, e.r.v[i], e.r.F) THEN {} ELSE {"value"})

RandomVerdict(e) ==
    LET f == F3(e.fr)
        t == e.x
    IN  IF e.r.kind = "none" THEN {"value"}
        ELSE (IF ShapeOK(e, t) THEN {} ELSE {"shape"})
             \cup (IF e.r.F = f.F /\ e.r.rep = RepOf(f) THEN {} ELSE {"rep"})
             \cup (IF \A i \in 1..Len(e.r.v) : Represents(f, e.r.v[i], e.r.F) THEN {} ELSE {"value"})
             \* every representable value can be generated, all with the same probability
             \cup (IF e.r.F = f.F /\ e.r.rep = RepOf(f) /\ Len(e.r.v) = Size(t) /\ Even(e, f) /\ Distinct(e, f)
                     THEN {} ELSE {"even"})

\* Conversions to real of wide data that doubles need not hold: within an ulp, and a warning tells if anything was lost.
NearVerdict(e) ==
    LET F == IF e.r.F > e.fa[3] THEN e.r.F ELSE e.fa[3]
        \* result and exact value, in the same units
        r(i) == NShl(e.r.v[i], F - e.r.F)
        x(i) == NShl(e.a.v[i], F - e.fa[3])
        abs(m) == IF NLt(m, NZero) THEN NNeg(m) ELSE m
    IN  IF e.r.kind = "none" THEN {"value"}
        ELSE (IF ShapeOK(e, e.a.sh) THEN {} ELSE {"shape"})
             \cup (IF /\ ShapeOK(e, e.a.sh)
                      /\ \A i \in 1..Len(e.r.v) : NLe(NShl(abs(NSub(r(i), x(i))), 52), abs(x(i))) THEN {} ELSE {"value"})
             \cup (IF /\ ShapeOK(e, e.a.sh)
                      /\ \E i \in 1..Len(e.r.v) : NCmp(r(i), x(i)) # 0 /\ e.warn = 0 THEN {"lossy"} ELSE {})

FmtVerdict(e) ==
    IF e.r.kind # "fmt" THEN {"value"}
    ELSE IF Fmt(e.r.x[1], e.r.x[2], e.r.x[3]) = FmtOf(e) THEN {} ELSE {"fmt"}

Verdict(e) ==
    IF ~Meaningful(e) THEN (IF e.st = "refused" THEN {} ELSE {"status"})
    ELSE IF e.st # "ok" THEN {"status"}
    ELSE CASE e.op \in DataOps  -> DataVerdict(e)
           [] e.op \in QueryOps -> QueryVerdict(e)
           [] e.op = "to_real_near" -> NearVerdict(e)
           [] e.op = "random"   -> RandomVerdict(e)
           [] e.op = "random_ends" -> EndsVerdict(e)
           [] e.op = "random_twice" -> RowsVerdict(e)
           [] e.op \in FmtOps   -> FmtVerdict(e)
           [] OTHER -> {}
=============================================================================
