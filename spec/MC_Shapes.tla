------------------------------ MODULE MC_Shapes -----------------------------
(* Laws of shapes and broadcasting, for all shapes of up to MaxDim           *)
(* dimensions of length 1..MaxLen.                                          *)
EXTENDS Shapes, FiniteSets
CONSTANTS MaxDim, MaxLen
VARIABLES s, t
vars == <<s, t>>
ShapesUpTo == UNION {[1..d -> 1..MaxLen] : d \in 0..MaxDim}
Init == s \in ShapesUpTo /\ t = <<>>
Next == t = <<>> /\ t' \in ShapesUpTo /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

b == Broadcast(s, t)
ok == Broadcastable(s, t)
Sym == ok => b = Broadcast(t, s)
Idem == ok => Broadcast(s, b) = b /\ Broadcastable(s, b) /\ Broadcast(s, s) = s /\ Broadcast(<<>>, s) = s
Assoc == \A u \in {<<>>, <<2>>, <<1>>, <<2, 1>>, <<1, 2>>} :
            (ok /\ Broadcastable(b, u) /\ Broadcastable(t, u) /\ Broadcastable(s, Broadcast(t, u)))
            => Broadcast(b, u) = Broadcast(s, Broadcast(t, u))
SourceOK == ok => \A k \in 1..Size(b) : Source(k, s, b) \in 1..Size(s)
\* Every element is used, equally often.
Onto == ok => \A i \in 1..Size(s) :
            Cardinality({k \in 1..Size(b) : Source(k, s, b) = i}) * Size(s) = Size(b)
=============================================================================
