------------------------------ MODULE Compare ------------------------------
(* Comparing clusterings of the same nodes.  A clustering is a function from   *)
(* nodes to cluster names; only who is together with whom matters.             *)
EXTENDS RealNum, FiniteSets, FiniteSetsExt, TLC

Cell(f, c) == {i \in DOMAIN f : f[i] = c}
Names(f) == {f[i] : i \in DOMAIN f}
Cells(f) == {Cell(f, c) : c \in Names(f)}
SameClusters(f, g) == Cells(f) = Cells(g)
RLog2(x) == RDiv(RLn(x), RLn(RInt(2)))
RSumOver(F(_), S) == FoldSet(LAMBDA x, acc : RAdd(acc, F(x)), R0, S)

(* ---- Jaccard distance of the pairs of nodes that are together ---- *)
NodePairs(f) == {{q[1], q[2]} : q \in {x \in (DOMAIN f) \X (DOMAIN f) : x[1] < x[2]}}
Together(f) == {p \in NodePairs(f) : \A i, j \in p : f[i] = f[j]}
Jaccard(f, g) == LET a == Together(f)  b == Together(g)
                 IN  IF a \cup b = {} THEN R0
                     ELSE RFrac(Cardinality((a \cup b) \ (a \cap b)), Cardinality(a \cup b))

(* ---- entropies, in bits ---- *)
Card(S) == Cardinality(S)
Ent(S, n) == IF Card(S) = 0 THEN R0 ELSE RNeg(RMul(RFrac(Card(S), n), RLog2(RFrac(Card(S), n))))
H(f) == RSumOver(LAMBDA A : Ent(A, Card(DOMAIN f)), Cells(f))
Joint(f, g) == {A \cap B : A \in Cells(f), B \in Cells(g)} \ {{}}
H2(f, g) == RSumOver(LAMBDA A : Ent(A, Card(DOMAIN f)), Joint(f, g))
OneCluster(f) == Card(Names(f)) = 1
NMI(f, g) == IF OneCluster(f) /\ OneCluster(g) THEN R1
             ELSE RDiv(RSub(RAdd(H(f), H(g)), H2(f, g)), RMax(H(f), H(g)))
(* variation of information, H(f|g) + H(g|f), relative to its largest value *)
NVI(f, g) == IF Card(DOMAIN f) = 1 \/ SameClusters(f, g) THEN R0
             ELSE RDiv(RSub(RMul(RInt(2), H2(f, g)), RAdd(H(f), H(g))), RLog2(RInt(Card(DOMAIN f))))

(* ---- similarity of two clusters, and an order of clusters that follows another *)
Overlap(A, B) == RFrac(Cardinality(A \cap B), Cardinality(A \cup B))
=============================================================================
