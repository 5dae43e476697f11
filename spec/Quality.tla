------------------------------ MODULE Quality ------------------------------
(* The quality of a grouping of nodes, the trace of the clustered              *)
(* autocovariance, and how it changes: moving a node, grouping the groups.     *)
(* Over the integers (MC_Quality, Louvain); QualityR in J_Cluster is the same  *)
(* over the reals.  A grouping is a function from nodes to group names.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

SumF(F(_), S) == MapThenSumSet(F, S)
Block(S, A, B) == SumF(LAMBDA i : SumF(LAMBDA j : S[i][j], B), A)
Members(f, c) == {i \in DOMAIN f : f[i] = c}
Groups(f) == {f[i] : i \in DOMAIN f}
Q(S, f) == SumF(LAMBDA c : Block(S, Members(f, c), Members(f, c)), Groups(f))

(* change of Q when node k joins a group C that does not hold it, or leaves a  *)
(* group C that holds it                                                       *)
GainTo(S, k, C) == Block(S, {k}, C) + Block(S, C, {k}) + S[k][k]
GainOut(S, k, C) == S[k][k] - Block(S, {k}, C) - Block(S, C, {k})
Gain(S, f, k, c) == GainOut(S, k, Members(f, f[k])) + GainTo(S, k, Members(f, c) \ {k})
(* groups become nodes *)
Aggregate(S, f) == [a \in Groups(f) |-> [b \in Groups(f) |-> Block(S, Members(f, a), Members(f, b))]]
Compose(f, g) == [i \in DOMAIN f |-> g[f[i]]]

(* two groupings, of sources and of targets: the clustered autocovariance      *)
Clustered(S, f, g, A, B) == [a \in A |-> [b \in B |-> Block(S, Members(f, a), Members(g, b))]]
=============================================================================
