----------------------------- MODULE Partition -----------------------------
(* Groups of nodes that are edited: nodes move between groups, empty groups    *)
(* are removed.  f maps every node to the number of its group (from 0), k is   *)
(* the number of groups, empty ones included.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Nodes(n) == 0..(n - 1)
Grp(f, c) == {i \in DOMAIN f : f[i] = c}
Used(f, k) == {c \in 0..(k - 1) : Grp(f, c) # {}}
Move(f, i, c) == [f EXCEPT ![i] = c]
(* number of used groups below c *)
Rank(f, k, c) == Cardinality({d \in Used(f, k) : d < c})
Clean(f, k) == [i \in DOMAIN f |-> Rank(f, k, f[i])]
(* a list of sets is a partition of the nodes *)
IsPartition(cl, n) == /\ UNION {cl[x] : x \in 1..Len(cl)} = Nodes(n)
                      /\ \A x, y \in 1..Len(cl) : x # y => cl[x] \cap cl[y] = {}
OfList(cl, n) == [i \in Nodes(n) |-> (CHOOSE x \in 1..Len(cl) : i \in cl[x]) - 1]
=============================================================================
