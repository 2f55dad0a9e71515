------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Arrays of words.  A word is a sequence of digits, most significant      *)
(* first (character codes, so that metavalues are covered); an array is a  *)
(* sequence of words of one width, element 0 first.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Numel(x, w) == Len(x) * w

\* Element 0 in the least significant position: it comes last in the text.
Flatten(x) == FoldSeq(LAMBDA e, acc : e \o acc, <<>>, x)

\* The w digits at position i from the least significant end.
Unflatten(v, w, n) == [i \in 1..n |-> SubSeq(v, Len(v) - i * w + 1, Len(v) - (i - 1) * w)]

\* Is an error due?
Differ(got, expected) == Len(got) # Len(expected) \/ \E i \in 1..Len(got) : got[i] # expected[i]
=============================================================================
