------------------------------ MODULE MC_Arrays -----------------------------
(* Laws of flattening over all small arrays, which grow word by word.       *)
EXTENDS Arrays
CONSTANTS MaxW, MaxN
VARIABLES w, x
vars == <<w, x>>
Word == [1..w -> {48, 49, 88}]
Init == w \in 0..MaxW /\ x = <<>>
Next == Len(x) < MaxN /\ \E e \in Word : x' = Append(x, e) /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
RoundTrip == Unflatten(Flatten(x), w, Len(x)) = x
Count == Len(Flatten(x)) = Numel(x, w)
\* Digit k of element i is digit i*w + k of the whole, counted from the least significant.
Place == \A i \in 1..Len(x), k \in 1..w :
            Flatten(x)[Len(Flatten(x)) - ((i - 1) * w + k) + 1] = x[i][w - k + 1]
\* Adding an element changes nothing below it.
Stable == [][LET n == Len(Flatten(x)) IN SubSeq(Flatten(x'), Len(Flatten(x')) - n + 1, Len(Flatten(x'))) = Flatten(x)]_vars
Same == ~Differ(x, x) /\ (x # <<>> => Differ(x, Tail(x)) /\ Differ(Tail(x), x))
Spot == \A i \in 1..Len(x), k \in 1..w : \A d \in {48, 49} :
            Differ(x, [x EXCEPT ![i][k] = d]) <=> x[i][k] # d
=============================================================================
