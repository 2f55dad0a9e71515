------------------------------- MODULE GenHist ------------------------------
(***************************************************************************)
(* Histories for the package: TLC simulates this machine, and the          *)
(* behaviours are replayed into the real code.  The state records for      *)
(* every handle only its kind and its format's handle; formats, values,    *)
(* modes and the function among those of a class are chosen when replayed. *)
(*                                                                         *)
(* Each step is a record [do, a]: an action and the handles it uses.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Depth, MaxHandles

VARIABLES kinds,    \* handle -> [k |-> "fmt" | "dat" | "obj" | "oth", f |-> handle of its format or 0]
          act,      \* the action chosen next
          hist
vars == <<kinds, act, hist>>

Acts == {"new_fmt", "new_dat", "new_obj", "fmt1", "fmt2", "dat1", "dat2", "query", "gen", "obj1", "obj2",
         "obj_query", "obj_read", "poke"}

Of(k) == {h \in 1..Len(kinds) : kinds[h].k = k}
Fmts == Of("fmt")
Dats == Of("dat")
Objs == Of("obj")

Can(x) == CASE x = "poke" -> kinds # <<>>
            [] x = "new_fmt" -> Len(kinds) < MaxHandles
            [] x \in {"new_dat", "fmt1", "fmt2", "gen"} -> Fmts # {} /\ Len(kinds) < MaxHandles
            [] x \in {"dat1", "dat2", "new_obj", "query"} -> Dats # {} /\ Len(kinds) < MaxHandles
            [] x \in {"obj1", "obj2", "obj_query", "obj_read"} -> Objs # {} /\ Len(kinds) < MaxHandles

Init == kinds = <<>> /\ act = "new_fmt" /\ hist = <<>>

Do(s, k) == /\ hist' = Append(hist, s)
            /\ kinds' = IF k = <<>> THEN kinds ELSE Append(kinds, k[1])
            /\ act' = "?"
K(k, f) == <<[k |-> k, f |-> f]>>

Choose == /\ act = "?"
          /\ \E x \in Acts : Can(x) /\ act' = x
          /\ UNCHANGED <<kinds, hist>>

\* r = 0: no result format is given
Perform ==
    CASE act = "new_fmt"   -> Do([do |-> act, a |-> <<>>], K("fmt", 0))
      [] act = "new_dat"   -> \E f \in Fmts : Do([do |-> act, a |-> <<f>>], K("dat", f))
      [] act = "new_obj"   -> \E d \in Dats : Do([do |-> act, a |-> <<d>>], K("obj", 0))
      [] act = "fmt1"      -> \E f \in Fmts : Do([do |-> act, a |-> <<f>>], K("fmt", 0))
      [] act = "fmt2"      -> \E f, g \in Fmts : Do([do |-> act, a |-> <<f, g>>], K("fmt", 0))
      [] act = "gen"       -> \E f \in Fmts : Do([do |-> act, a |-> <<f>>], K("dat", f))
      [] act = "dat1"      -> \E d \in Dats, r \in Fmts \cup {0} : Do([do |-> act, a |-> <<d, r>>], K("dat", r))
      [] act = "dat2"      -> \E d, e \in Dats, r \in Fmts \cup {0} : Do([do |-> act, a |-> <<d, e, r>>], K("dat", r))
      [] act = "query"     -> \E d \in Dats, r \in Fmts : Do([do |-> act, a |-> <<d, r>>], K("oth", 0))
      [] act = "obj1"      -> \E x \in Objs, r \in Fmts \cup {0} : Do([do |-> act, a |-> <<x, r>>], K("obj", 0))
      [] act = "obj2"      -> \E x, y \in Objs, r \in Fmts \cup {0} : Do([do |-> act, a |-> <<x, y, r>>], K("obj", 0))
      [] act = "obj_query" -> \E x, y \in Objs, r \in Fmts : Do([do |-> act, a |-> <<x, y, r>>], K("oth", 0))
      [] act = "obj_read"  -> \E x \in Objs : \/ Do([do |-> "obj_data", a |-> <<x>>], K("dat", 0))
                                              \/ Do([do |-> "obj_fmt", a |-> <<x>>], K("fmt", 0))
      [] act = "poke"      -> \E h \in 1..Len(kinds) : Do([do |-> act, a |-> <<h>>], <<>>)

Finish == act' = "end" /\ UNCHANGED <<kinds, hist>>

Next == IF act = "end" THEN FALSE /\ UNCHANGED vars
        ELSE IF act # "?" THEN Perform
        ELSE IF Len(hist) < Depth THEN Choose ELSE Finish
Spec == Init /\ [][Next]_vars

\* Prints a finished history (evaluated as an invariant).
Report == act = "end" => PrintT("HIST " \o ToJson(hist))
=============================================================================
