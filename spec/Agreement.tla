----------------------------- MODULE Agreement ------------------------------
(***************************************************************************)
(* The same request executed several times, in different ways, must give   *)
(* the same numbers.  A line holds the request (see Calls) and             *)
(*   outs   the outcomes [src, st, kind, sh, v, F, rep, w, x, warn]        *)
(* kind "data"/"num": the numbers v[i] * 2^-F; kind "bits": bit patterns   *)
(* of w bits of data in the result format.                                 *)
(*                                                                         *)
(* C08/C09 compare all outcomes; C21 compares outcome 1 (arrays) with the  *)
(* outcomes 2.. of the calls on the single elements.                       *)
(***************************************************************************)
EXTENDS Calls

Numeric == {"data", "num"}

\* Outcomes o and p denote the same numbers (in result format f, if they are data).
SameNumbers(o, p, f) ==
    /\ Len(o.v) = Len(p.v)
    /\ \A i \in 1..Len(o.v) :
         CASE o.kind \in Numeric /\ p.kind \in Numeric -> ValCmp(o.v[i], o.F, p.v[i], p.F) = 0
           [] o.kind = "bits" /\ p.kind = "bits" -> o.v[i] = p.v[i] /\ o.w = p.w
           [] o.kind = "bits" /\ p.kind = "data" -> o.w = Width(f) /\ p.F = f.F /\ o.v[i] = BitsOf(p.v[i], f)
           [] o.kind = "data" /\ p.kind = "bits" -> p.w = Width(f) /\ o.F = f.F /\ p.v[i] = BitsOf(o.v[i], f)
           [] OTHER -> FALSE

IsData(e) == e.op \in DataOps
DummyFmt == Fmt(0, 0, 0)
ResF(e) == IF IsData(e) THEN ResFmt(e) ELSE DummyFmt

(* C08, C09: pairwise agreement. *)
Agree(e) ==
    LET os == e.outs
        f  == ResF(e)
        ok == {i \in 1..Len(os) : os[i].st = "ok"}
    IN  (IF ok = 1..Len(os) THEN {} ELSE {"refused"})
        \cup (IF \A i \in ok : os[i].kind # "none" THEN {} ELSE {"value"})
        \cup (IF \A i, j \in ok : i < j => SameNumbers(os[i], os[j], f) THEN {} ELSE {"value"})

(* C08: data is in the representation of its format, on its grid and within it. *)
RepOf(f) == IF IsWide(f) THEN "wide" ELSE "narrow"
GoodData(o, f) ==
    /\ o.rep = IF o.src = "py" THEN RepOf(f) ELSE o.src
    /\ o.F = f.F
    /\ \A i \in 1..Len(o.v) : InRangeM(o.v[i], f)
    /\ o.x # <<>> => F3(o.x) = f
Represented(e) ==
    IF IsData(e) /\ \E i \in 1..Len(e.outs) : e.outs[i].st = "ok" /\ e.outs[i].kind = "data"
                                            /\ ~GoodData(e.outs[i], ResF(e))
    THEN {"rep"} ELSE {}

(* C21: outcome 1 is the array call, outcome 1 + k the call on element k of  *)
(* the result.                                                              *)
Elementwise(e) ==
    LET t == ResShape(e)
        o == e.outs[1]
        f == ResF(e)
        n == Size(t)
        single(k) == e.outs[1 + k]
    IN  IF \E i \in 1..Len(e.outs) : e.outs[i].st # "ok" THEN {"refused"}
        ELSE (IF o.sh = t /\ Len(o.v) = n THEN {} ELSE {"shape"})
             \cup (IF /\ Len(o.v) = n /\ Len(e.outs) = n + 1
                      /\ \A k \in 1..n : /\ Len(single(k).v) = 1
                                         /\ single(k).kind # "none"
                                         /\ ValCmp(o.v[k], o.F, single(k).v[1], single(k).F) = 0
                   THEN {} ELSE {"value"})

Verdict(e) == CASE e.kind = "agree"   -> Agree(e)
                [] e.kind = "rep"     -> Agree(e) \cup Represented(e)
                [] e.kind = "element" -> Elementwise(e)
=============================================================================
