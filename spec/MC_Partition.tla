---------------------------- MODULE MC_Partition ----------------------------
(* Every sequence of edits of every grouping of N nodes; prints the edges of   *)
(* the state graph for the tour that is replayed.                              *)
EXTENDS Partition
CONSTANTS N, EmitEdges
VARIABLES f, k
vars == <<f, k>>
Compact(g) == \E m \in 1..N : {g[i] : i \in Nodes(N)} = 0..(m - 1)
Init == f \in {g \in [Nodes(N) -> 0..(N - 1)] : Compact(g)} /\ k = Cardinality({f[i] : i \in Nodes(N)})
Ops == {[op |-> "move", i |-> i, c |-> c] : i \in Nodes(N), c \in 0..(k - 1)} \cup {[op |-> "clean"]}
Do(o) == IF o.op = "move" THEN f' = Move(f, o.i, o.c) /\ k' = k
         ELSE f' = Clean(f, k) /\ k' = Cardinality(Used(f, k))
Seq0(g) == [i \in 1..N |-> g[i - 1]]
Abs == [f |-> Seq0(f), k |-> k]
Next == \E o \in Ops : Do(o) /\ (EmitEdges => PrintT(<<"E", ToJson([f |-> Abs, o |-> o, t |-> Abs'])>>))
InRange == \A i \in Nodes(N) : f[i] \in 0..(k - 1)
EveryNodeOnce == /\ UNION {Grp(f, c) : c \in 0..(k - 1)} = Nodes(N)
                 /\ \A c, d \in 0..(k - 1) : c # d => Grp(f, c) \cap Grp(f, d) = {}
(* cleaning keeps who is together, and the order of the groups *)
CleanKeeps == LET g == Clean(f, k) IN
   /\ \A i, j \in Nodes(N) : (f[i] = f[j]) <=> (g[i] = g[j])
   /\ \A i, j \in Nodes(N) : f[i] < f[j] => g[i] < g[j]
   /\ Compact(g)
=============================================================================
