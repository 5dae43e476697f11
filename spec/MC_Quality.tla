----------------------------- MODULE MC_Quality -----------------------------
(* All small matrices and groupings: the increments are the differences of the *)
(* quality, and aggregation keeps the quality of every coarser grouping.       *)
EXTENDS Quality
CONSTANTS N, Pos            \* entries are -Pos..Pos without 0 if ~Zero
CONSTANTS Zero, AllG
VARIABLES S, f, g
Entries == IF Zero THEN (-Pos)..Pos ELSE (-Pos)..Pos \ {0}
Nodes == 1..N
RG == {h \in [Nodes -> Nodes] : \A i \in Nodes : h[i] <= Cardinality({h[j] : j \in 1..(i - 1)}) + 1}
Init == S \in [Nodes -> [Nodes -> Entries]] /\ f \in RG /\ g = f
Next == g = f /\ g' \in (IF AllG THEN [Nodes -> Nodes] ELSE RG) /\ UNCHANGED <<S, f>>
IncrementsExact == \A k \in Nodes : \A c \in Nodes \ {f[k]} :
   Q(S, [f EXCEPT ![k] = c]) = Q(S, f) + Gain(S, f, k, c)
AggregationExact == Q(Aggregate(S, f), [a \in Groups(f) |-> g[a]]) = Q(S, Compose(f, g))
(* moving node k out of group a of sources and b of targets and into c and d   *)
BiMove(k, c, d) ==
  LET R == Clustered(S, f, g, Nodes, Nodes)
      f1 == [f EXCEPT ![k] = c]   g1 == [g EXCEPT ![k] = d]
      In(h, x) == Members(h, x) \ {k}
  IN  Clustered(S, f1, g1, Nodes, Nodes) =
        [a \in Nodes |-> [b \in Nodes |-> Block(S, In(f, a), In(g, b))
            + (IF a = c THEN Block(S, {k}, In(g, b)) ELSE 0)
            + (IF b = d THEN Block(S, In(f, a), {k}) ELSE 0)
            + (IF a = c /\ b = d THEN S[k][k] ELSE 0)]]
BiMoves == \A k \in Nodes : \A c, d \in Nodes : BiMove(k, c, d)
(* the whole is the sum of the clustered parts *)
TotalKept == SumF(LAMBDA a : SumF(LAMBDA b : Clustered(S, f, g, Nodes, Nodes)[a][b], Nodes), Nodes) = Block(S, Nodes, Nodes)
=============================================================================
