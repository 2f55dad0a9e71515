------------------------------- MODULE Shapes -------------------------------
(* n-dimensional arrays: shapes, row-major flattening and broadcasting.     *)
(* A shape is a sequence of dimension lengths (<<>> is a scalar); the       *)
(* elements of an array are a sequence in row-major order.                  *)
EXTENDS Integers, Sequences

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Size(s) == Prod(s)

Max2(a, b) == IF a >= b THEN a ELSE b

\* Shape s with leading dimensions of length 1, up to n dimensions.
Pad(s, n) == [i \in 1..n |-> IF i <= n - Len(s) THEN 1 ELSE s[i - (n - Len(s))]]

Broadcastable(s, t) ==
    LET n == Max2(Len(s), Len(t))
        p == Pad(s, n)
        q == Pad(t, n)
    IN \A i \in 1..n : p[i] = q[i] \/ p[i] = 1 \/ q[i] = 1

Broadcast(s, t) ==
    LET n == Max2(Len(s), Len(t))
        p == Pad(s, n)
        q == Pad(t, n)
    IN [i \in 1..n |-> IF p[i] = 1 THEN q[i] ELSE p[i]]

\* Row-major multi-index (0-based) of flat index k (0-based) in shape s.
RECURSIVE Unravel(_, _)
Unravel(k, s) == IF s = <<>> THEN <<>>
                 ELSE LET n == Prod(Tail(s))
                      IN <<k \div n>> \o Unravel(k % n, Tail(s))
RECURSIVE Ravel(_, _)
Ravel(ix, s) == IF s = <<>> THEN 0
                ELSE ix[1] * Prod(Tail(s)) + Ravel(Tail(ix), Tail(s))

\* Flat index (1-based) into an array of shape s of the element that
\* contributes to flat index k (1-based) of a result of shape t.
Source(k, s, t) ==
    IF s = t THEN k
    ELSE IF Prod(s) = 1 THEN 1
    ELSE LET ix == Unravel(k - 1, t)
             d  == Len(t) - Len(s)
         IN 1 + Ravel([i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE ix[i + d]], s)
=============================================================================
