----------------------------- MODULE MC_Machine -----------------------------
(***************************************************************************)
(* Implementation of the store with cells: every handle refers to cells,   *)
(* one per part of its value, and pokes write cells.                       *)
(*  - If calls put their results into new cells (Fresh = TRUE), programs   *)
(*    see exactly what Machine specifies (Refines).                        *)
(*  - If calls may return cells of their operands, or cells they remember  *)
(*    from earlier calls, then every store in which cells are shared is    *)
(*    told from the specified one by poking every part of every value once *)
(*    (Exposed); this is what the recorded histories end with.             *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Fresh, MaxHandles, Parts

VARIABLES refs,     \* handle -> sequence of cells
          cells,    \* cell -> content
          store,    \* what Machine specifies
          memo      \* cells the implementation remembers
vars == <<refs, cells, store, memo>>

Contents == {"a", "b"}
Val(r, c) == [m |-> "x", v |-> [i \in 1..Parts |-> c[r[i]]]]
View == [h \in 1..Len(refs) |-> Val(refs[h], cells)]
NewCells == [i \in 1..Parts |-> Len(cells) + i]

Init == refs = <<>> /\ cells = <<>> /\ store = <<>> /\ memo = <<>>

Create == \E x \in Contents :
    /\ refs' = Append(refs, NewCells)
    /\ cells' = cells \o [i \in 1..Parts |-> x]
    /\ store' = Append(store, [m |-> "x", v |-> [i \in 1..Parts |-> x]])
    /\ UNCHANGED memo

\* The call returns its operand's value unchanged (a resize into the same format, say).
Call == \E h \in 1..Len(refs) :
    /\ store' = Append(store, [m |-> "x", v |-> store[h].v])
    /\ \/ /\ refs' = Append(refs, NewCells)
          /\ cells' = cells \o [i \in 1..Parts |-> cells[refs[h][i]]]
          /\ memo' = NewCells
       \/ /\ ~Fresh
          /\ refs' = Append(refs, refs[h])
          /\ UNCHANGED <<cells, memo>>
       \/ /\ ~Fresh /\ memo # <<>>
          /\ \A i \in 1..Parts : cells[memo[i]] = cells[refs[h][i]]
          /\ refs' = Append(refs, memo)
          /\ UNCHANGED <<cells, memo>>
       \/ /\ ~Fresh                 \* all parts in one cell, if they are equal
          /\ \A i \in 1..Parts : cells[refs[h][i]] = cells[refs[h][1]]
          /\ refs' = Append(refs, [i \in 1..Parts |-> Len(cells) + 1])
          /\ cells' = Append(cells, cells[refs[h][1]])
          /\ UNCHANGED memo

Poke == \E h \in 1..Len(refs), i \in 1..Parts, x \in Contents :
    /\ cells' = [cells EXCEPT ![refs[h][i]] = x]
    /\ store' = [store EXCEPT ![h].v[i] = x]
    /\ UNCHANGED <<refs, memo>>

Next == (Len(refs) < MaxHandles /\ (Create \/ Call)) \/ Poke
\* Only what can be told apart later matters.
Spec == Init /\ [][Next]_vars

Refines == Fresh => View = store

Poked(h, i, x) == LET c == [cells EXCEPT ![refs[h][i]] = x] IN [g \in 1..Len(refs) |-> Val(refs[g], c)]
Other(x) == IF x = "a" THEN "b" ELSE "a"
Shared == \E h, g \in 1..Len(refs), i, j \in 1..Parts : <<h, i>> # <<g, j>> /\ refs[h][i] = refs[g][j]
\* The sweep: every part of every value is given another content, one after the other.
Differs(h, i) == Poked(h, i, Other(cells[refs[h][i]])) # [View EXCEPT ![h].v[i] = Other(View[h].v[i])]
Exposed == Shared => \E h \in 1..Len(refs), i \in 1..Parts : Differs(h, i)
Silent == ~Shared => \A h \in 1..Len(refs), i \in 1..Parts : ~Differs(h, i)
=============================================================================
