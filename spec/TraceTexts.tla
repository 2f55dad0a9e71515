----------------------------- MODULE TraceTexts -----------------------------
(***************************************************************************)
(* Conformance of recorded conversions to and from text.  Clauses:         *)
(*   refused  the conversion failed                                        *)
(*   text     the text does not denote the format, mode or value           *)
(*   accepted a text without meaning was taken for one with                *)
(*   parse    another format or mode than the text denotes                 *)
(***************************************************************************)
EXTENDS Texts, TraceRun

(* Texts that cannot denote a format: punctuation is missing, or the first *)
(* character of the sign field is neither 0 nor 1.                         *)
Parts(t) ==
    LET o == MinOf(Positions(t, 40))
        s == {i \in Positions(t, 44) : i > o}
    IN IF s = {} THEN FALSE
       ELSE LET c1 == MinOf(s)
                s2 == {i \in s : i > c1}
            IN s2 # {} /\ \E k \in Positions(t, 41) : k > MinOf(s2)
Unparsable(t) ==
    \/ Positions(t, 40) = {}
    \/ LET o == MinOf(Positions(t, 40)) IN o = Len(t) \/ t[o + 1] \notin {48, 49}
    \/ ~Parts(t)

(* Attempts: what cannot be parsed is refused, what is well written is not; *)
(* nothing is claimed about the rest.                                      *)
TryVerdict(e) ==
    IF e.op = "mode_try"
    THEN (IF Named(e.text, e.table) = {} THEN (IF e.st = "refused" THEN {} ELSE {"accepted"})
          ELSE (IF e.st = "ok" THEN {} ELSE {"refused"}))
    ELSE (IF Unparsable(e.text) THEN (IF e.st = "refused" THEN {} ELSE {"accepted"})
          ELSE (IF e.f # <<>> /\ FormatIn(e.text, e.f) /\ e.st # "ok" THEN {"refused"} ELSE {}))

Verdict(e) ==
    IF e.op \in {"fmt_try", "mode_try"} THEN TryVerdict(e)
    ELSE IF e.st # "ok" THEN {"refused"}
    ELSE LET good ==
             CASE e.op \in {"fmt_text", "fmt_parse"}   -> FormatIn(e.text, e.f)
               [] e.op \in {"mode_text", "mode_parse"} -> Named(e.text, e.table) = {e.i}
               [] e.op = "value_text"                  -> ShowsValue(e.text, e.bits, e.f)
         IN IF good THEN {} ELSE {IF e.op \in {"fmt_parse", "mode_parse"} THEN "parse" ELSE "text"}

Next == Step(Verdict)
Spec == Init /\ [][Next]_vars
=============================================================================
