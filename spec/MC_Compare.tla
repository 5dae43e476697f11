----------------------------- MODULE MC_Compare -----------------------------
(* All pairs (and triples) of clusterings of N nodes. *)
EXTENDS Compare, Json
CONSTANTS N, Triples, EmitPairs
VARIABLES f, g, h, perm
Nodes == 0..(N - 1)
RG == {x \in [Nodes -> Nodes] : \A i \in Nodes : x[i] <= Cardinality({x[j] : j \in 0..(i - 1)})}
Asc(x) == [i \in 1..N |-> x[i - 1]]
Rev(x) == [i \in Nodes |-> x[N - 1 - i]]
Init == /\ f \in RG /\ g \in RG /\ h \in (IF Triples THEN RG ELSE {f})
        /\ perm = [c \in Nodes |-> (c + 1) % N]
        /\ (EmitPairs => PrintT(<<"P", ToJson([f |-> Asc(f), g |-> Asc(g)])>>))
Next == FALSE /\ UNCHANGED <<f, g, h, perm>>
Eps == RPow10(-12)
InUnit(x) == RLeq(RNeg(Eps), x) /\ RLeq(x, RAdd(R1, Eps))
Symmetric == /\ REq(Jaccard(f, g), Jaccard(g, f)) /\ RNear(NMI(f, g), NMI(g, f), 12) /\ RNear(NVI(f, g), NVI(g, f), 12)
Ranges == InUnit(Jaccard(f, g)) /\ InUnit(NMI(f, g)) /\ InUnit(NVI(f, g))
Zero(x) == RLt(RAbs(x), RPow10(-9))
Identity == /\ (f = g => Zero(NVI(f, g)) /\ Zero(Jaccard(f, g)) /\ RNear(NMI(f, g), R1, 12))
            /\ (Zero(NVI(f, g)) => f = g) /\ (Zero(Jaccard(f, g)) => f = g)
            /\ (RNear(NMI(f, g), R1, 9) => f = g)
NamesDoNotMatter == LET f2 == [i \in Nodes |-> perm[f[i]] + 5]
                    IN  /\ REq(Jaccard(f2, g), Jaccard(f, g)) /\ RNear(NMI(f2, g), NMI(f, g), 12) /\ RNear(NVI(f2, g), NVI(f, g), 12)
NodesDoNotMatter == /\ REq(Jaccard(Rev(f), Rev(g)), Jaccard(f, g)) /\ RNear(NMI(Rev(f), Rev(g)), NMI(f, g), 12)
                    /\ RNear(NVI(Rev(f), Rev(g)), NVI(f, g), 12)
Triangle == RLeq(NVI(f, h), RAdd(RAdd(NVI(f, g), NVI(g, h)), Eps)) /\ RLeq(Jaccard(f, h), RAdd(RAdd(Jaccard(f, g), Jaccard(g, h)), Eps))
=============================================================================
