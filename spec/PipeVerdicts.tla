---------------------------- MODULE PipeVerdicts -----------------------------
(***************************************************************************)
(* Verdicts on recorded histories of component instances.  A line holds    *)
(*   kind (0 round, 1 saturate, 2 resize), fa, fr, rnd, sat,               *)
(*   reg  (0 automatic, 1 all registers, 2 none),                          *)
(*   st   "ok", or "refused" if the instance could not be simulated        *)
(*   h    the history; data are bit patterns, bad = 1: a valid output      *)
(*        had metavalues in its metadata or data                           *)
(* Clauses:                                                                *)
(*   refused  no history                                                   *)
(*   deliver  there is no latency with which the history conforms  (C14)   *)
(*   latency  it conforms, but not with the documented latency     (C15)   *)
(***************************************************************************)
EXTENDS FixSem, Pipeline

P3(t) == Fmt(t[1], t[2], t[3])

Function(e, u) ==
    LET a == P3(e.fa)
        r == P3(e.fr)
        m == WrapM(u, a)
    IN BitsOf(CASE e.kind = 0 -> RoundM(m, a.F, r.F, e.rnd)
                [] e.kind = 1 -> SatM(m, r, e.sat)
                [] e.kind = 2 -> ResizeM(m, a.F, r, e.rnd, e.sat), r)

Documented(e) ==
    LET stages == CASE e.kind = 0 -> RoundStages(P3(e.fa), e.fr[3], e.rnd)
                    [] e.kind = 1 -> SatStages(P3(e.fa), P3(e.fr), e.sat)
                    [] e.kind = 2 -> ResizeStages(P3(e.fa), P3(e.fr), e.rnd, e.sat)
    IN CASE e.reg = 0 -> stages
         [] e.reg = 1 -> IF e.kind = 2 THEN 2 ELSE 1
         [] e.reg = 2 -> 0

MaxLatency == 4

PipeVerdict(e) ==
    IF e.st # "ok" THEN {"refused"}
    ELSE LET fn(u) == Function(e, u)
             fits == {L \in 0..MaxLatency : Delivers(e.h, L, fn)}
             clean == \A t \in 1..Len(e.h) : e.h[t].bad = 0
         IN IF fits = {} \/ ~clean THEN {"deliver"}
            ELSE IF Documented(e) \in fits THEN {} ELSE {"latency"}
=============================================================================
