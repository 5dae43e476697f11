----------------------------- MODULE J_Cluster -----------------------------
(* Judges autocovariances, qualities and their increments, partitions and the  *)
(* results of the optimisation.  Nodes are numbered from 0, matrices are       *)
(* indexed from 1.                                                             *)
EXTENDS LinAlg, JudgeBase, Partition, FiniteSetsExt, SequencesExt

(* sum of S over rows A and columns B (sequences of nodes) *)
BlockR(S, A, B) == RSum([x \in 1..(Len(A) * Len(B)) |->
                      S[A[((x - 1) \div Len(B)) + 1] + 1][B[((x - 1) % Len(B)) + 1] + 1]])
QualityR(S, cl) == RSum([c \in 1..Len(cl) |-> BlockR(S, cl[c], cl[c])])
Near(x, y) == RNear(x, y, 10)

(* ---- the autocovariance that a description stands for ---- *)
Uniform(n) == [i \in 1..n |-> RFrac(1, n)]
Inv(v) == [i \in 1..Len(v) |-> IF REq(v[i], R0) THEN R1 ELSE RDiv(R1, v[i])]
Autocov(r) ==
  LET n == r.n
      p1 == IF r.hasP1 THEN r.p1 ELSE Uniform(n)
      p2 == IF r.hasP2 THEN r.p2 ELSE VMat(p1, r.M)
  IN  CASE r.form = "PT"     -> MSub(r.M, Outer(p1, r.p2))
        [] r.form = "PTs"    -> MSub(r.M, Outer(Uniform(n), Uniform(n)))
        [] r.form = "S"      -> r.M
        [] r.form = "T"      -> MSub(DiagL(p1, r.M), Outer(p1, p2))
        [] r.form = "fwd"    -> MSub(DiagR(DiagL(p1, MMul(DiagR(r.M, Inv(p2)), Transp(r.M))), p1), Outer(p1, p1))
Trim(S, thr) == [i \in 1..Len(S) |-> [j \in 1..Len(S) |-> IF RLt(RAbs(S[i][j]), thr) THEN R0 ELSE S[i][j]]]
AggR(S, groups) == [a \in 1..Len(groups) |-> [b \in 1..Len(groups) |-> BlockR(S, groups[a], groups[b])]]
MaxAbsM(M) == SeqMax([i \in 1..Len(M) |-> SeqMax([j \in 1..Len(M[i]) |-> RAbs(M[i][j])], R0)], R0)

(* ---- C08: queries on a sparse autocovariance ---- *)
QueryClause(S, q, o) ==
  IF o.raised # "" THEN "raised_" \o o.raised
  ELSE CASE q.q = "sub"  -> IF Near(o.val, BlockR(S, q.rows, q.cols)) THEN "ok" ELSE "sum_of_a_block"
         [] q.q = "elem" -> IF Near(o.val, S[q.i + 1][q.j + 1]) THEN "ok" ELSE "value_of_an_element"
         [] q.q = "row"  -> IF Near(o.val, BlockR(S, <<q.i>>, q.cols)) THEN "ok" ELSE "sum_of_a_row"
         [] q.q = "col"  -> IF Near(o.val, BlockR(S, q.rows, <<q.i>>)) THEN "ok" ELSE "sum_of_a_column"
         [] q.q = "to"   -> IF Near(o.val, RSub(BlockR(S, Append(q.rows, q.i), Append(q.rows, q.i)), BlockR(S, q.rows, q.rows)))
                            THEN "ok" ELSE "gain_of_joining_a_group"
         [] q.q = "out"  -> LET rest == SelectSeq(q.rows, LAMBDA x : x # q.i)
                            IN  IF Near(o.val, RSub(BlockR(S, rest, rest), BlockR(S, q.rows, q.rows)))
                                THEN "ok" ELSE "gain_of_leaving_a_group"
         [] q.q = "full" -> IF MNear(o.mat, S, 10) THEN "ok" ELSE "full_matrix"
         [] q.q = "copy" -> IF MNear(o.mat, S, 10) THEN "ok" ELSE "copy"
         [] q.q = "agg"  -> IF MNear(o.mat, AggR(S, q.groups), 10) THEN "ok" ELSE "aggregation"
         [] q.q = "zero" -> IF RLt(MaxAbsM(S), RPow10(-12)) /\ ~o.flag /\ q.fullsupport THEN "zero_is_recognised"
                            ELSE IF RLt(RPow10(-4), MaxAbsM(S)) /\ o.flag /\ q.fullsupport THEN "nonzero_is_recognised"
                            ELSE "ok"
RECURSIVE Queries(_, _, _)
Queries(r, k, S) == IF k > Len(r.queries) THEN "ok"
   ELSE LET q == r.queries[k]
            c == QueryClause(S, q, r.obs[k])
        IN  IF c # "ok" THEN c
            ELSE Queries(r, k + 1, IF q.q = "agg" THEN TLCEval(AggR(S, q.groups)) ELSE S)
VAutocov(r) == IF r.raised # "" THEN "raised_" \o r.raised ELSE Queries(r, 1, TLCEval(Autocov(r)))

(* ---- C08: the quality along a sequence of moves ---- *)
SMat(r) == TLCEval(IF r.hasThr THEN Trim(Autocov(r), r.thr) ELSE Autocov(r))
ListOf(f, k) == [c \in 1..k |-> SetToSeq({i \in DOMAIN f : f[i] = c - 1})]
RECURSIVE Moves(_, _, _, _, _)
Moves(r, S, x, f, k) ==
  IF x > Len(r.moves) THEN
     LET g == Clean(f, k)  m == Cardinality(Used(f, k))
     IN  IF r.final.raised # "" THEN "raised_" \o r.final.raised
         ELSE IF ~Near(r.final.stab, QualityR(S, ListOf(g, m))) THEN "quality_without_empty_groups"
         ELSE IF r.final.hasAgg /\ ~MNear(r.final.agg, AggR(S, ListOf(g, m)), 10) THEN "aggregation"
         ELSE "ok"
  ELSE LET mv == r.moves[x]  o == r.obs[x]
           q0 == QualityR(S, ListOf(f, k))
           g == Move(f, mv.i, mv.c)
           q1 == QualityR(S, ListOf(g, k))
       IN  IF o.raised # "" THEN "raised_" \o o.raised
           ELSE IF ~Near(o.before, q0) THEN "quality_of_a_partition"
           ELSE IF mv.c # f[mv.i] /\ o.hasGain /\ ~Near(o.gain, RSub(q1, q0)) THEN "gain_of_a_move"
           ELSE IF ~Near(o.after, q1) THEN "quality_after_a_move"
           ELSE Moves(r, S, x + 1, g, k)
StartOf(r) == [i \in Nodes(r.n) |-> r.start[i + 1]]
VMoves(r) == IF r.raised # "" THEN "raised_" \o r.raised
             ELSE Moves(r, SMat(r), 1, StartOf(r), Cardinality(ToSet(r.start)))

(* two partitions, of sources and of targets *)
RBi(S, f, g, ks, kt) == [a \in 1..ks |-> [b \in 1..kt |-> BlockR(S, ListOf(f, ks)[a], ListOf(g, kt)[b])]]
Injections(m, n) == {h \in [1..m -> 1..n] : \A x, y \in 1..m : x # y => h[x] # h[y]}
BestFlow(R) == LET m == Len(R)  n == Len(R[1])
                   W(h) == RSum([x \in 1..Cardinality(DOMAIN h) |-> IF m <= n THEN R[x][h[x]] ELSE R[h[x]][x]])
                   H == IF m <= n THEN Injections(m, n) ELSE Injections(n, m)
               IN  CHOOSE v \in {W(h) : h \in H} : \A h \in H : RLeq(W(h), v)
VBi(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET S == SMat(r)
           f == StartOf(r)   g == [i \in Nodes(r.n) |-> r.tstart[i + 1]]
           ks == Cardinality(ToSet(r.start))  kt == Cardinality(ToSet(r.tstart))
           R == RBi(S, f, g, ks, kt)
           f1 == Move(f, r.k, r.cs)  g1 == Move(g, r.k, r.ct)
           rest == [i \in Nodes(r.n) \ {r.k} |-> f[i]]  grest == [i \in Nodes(r.n) \ {r.k} |-> g[i]]
       IN  IF r.hasR /\ ~MNear(r.R, R, 10) THEN "clustered_autocovariance"
           ELSE IF r.hasOut /\ ~MNear(r.Rout, RBi(S, rest, grest, ks, kt), 10) THEN "clustered_autocovariance_without_a_node"
           ELSE IF r.hasTo /\ ~MNear(r.Rto, RBi(S, f1, g1, ks, kt), 10) THEN "clustered_autocovariance_after_a_move"
           ELSE IF r.hasFlow /\ ~Near(r.flow, BestFlow(R)) THEN "best_flow"
           ELSE "ok"

(* ---- C09: partitions ---- *)
Listed(f, k) == [c \in 1..k |-> Grp(f, c - 1)]
PartClause(f, k, n, o) ==
  LET cl == [c \in 1..Len(o.clusters) |-> ToSet(o.clusters[c])]
  IN  IF o.raised # "" THEN "raised_" \o o.raised
      ELSE IF cl # Listed(f, k) THEN "groups"
      ELSE IF o.dict # [i \in 1..n |-> f[i - 1]] THEN "group_of_every_node"
      ELSE IF o.num # k THEN "number_of_groups"
      ELSE IF o.numUsed # Cardinality(Used(f, k)) THEN "number_of_nonempty_groups"
      ELSE IF \E x \in {o.ind, o.indSparse} : x # [i \in 1..n |-> [c \in 1..k |-> IF f[i - 1] = c - 1 THEN 1 ELSE 0]]
           THEN "indicator_matrix"
      ELSE IF Len(o.iter) # k \/ \E c \in 1..k : ToSet(o.iter[c]) # Grp(f, c - 1) \/ Len(o.iter[c]) # Cardinality(Grp(f, c - 1))
           THEN "iteration_over_groups"
      ELSE IF ~o.integral THEN "integrity"
      ELSE "ok"
RECURSIVE Edits(_, _, _, _)
Edits(r, x, f, k) ==
  LET c == PartClause(f, k, r.n, r.obs[x])
  IN  IF c # "ok" THEN c
      ELSE IF x > Len(r.ops) THEN "ok"
      ELSE LET o == r.ops[x]
           IN  IF o.op = "move" THEN Edits(r, x + 1, Move(f, o.i, o.c), k)
               ELSE Edits(r, x + 1, Clean(f, k), Cardinality(Used(f, k)))
VPart(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE Edits(r, 1, [i \in Nodes(r.n) |-> r.start[i + 1]], Cardinality(ToSet(r.start)))
(* lists of groups, valid or not: only partitions pass the check *)
VIntegrity(r) ==
  LET cl == [c \in 1..Len(r.lists) |-> ToSet(r.lists[c])]
      valid == IsPartition(cl, r.n)
  IN  IF r.raised # "" THEN "raised_" \o r.raised
      ELSE IF valid /\ (r.ctor # "" \/ r.later # "") THEN "partition_is_accepted"
      ELSE IF ~valid /\ r.ctor # "ValueError" THEN "check_at_construction"
      ELSE IF ~valid /\ r.later # "ValueError" THEN "check_afterwards"
      ELSE IF r.both # "ValueError" THEN "two_descriptions_are_refused"
      ELSE "ok"

(* ---- C10: the optimisation ---- *)
Flat(cl) == [x \in 1..Len(cl) |-> ToSet(cl[x])]
SumLen(cl) == MapThenSumSet(LAMBDA x : Len(cl[x]), 1..Len(cl))
ValidResult(cl, n) == /\ IsPartition(Flat(cl), n) /\ SumLen(cl) = n
                      /\ \A x \in 1..Len(cl) : cl[x] # <<>>
SameGrouping(a, b) == {ToSet(a[x]) : x \in 1..Len(a)} = {ToSet(b[x]) : x \in 1..Len(b)}
Coarser(a, b) ==         \* every group of a lies in a group of b
  \A x \in 1..Len(a) : \E y \in 1..Len(b) : ToSet(a[x]) \subseteq ToSet(b[y])
Linked(r, A, B) == \E i \in 1..Len(A), j \in 1..Len(B) :
                      ~REq(r.link[A[i] + 1][B[j] + 1], R0) \/ ~REq(r.link[B[j] + 1][A[i] + 1], R0)
VLouvain(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET S == SMat(r)
           n == r.n
           k0 == Cardinality(ToSet(r.start))
           start == ListOf(StartOf(r), k0)
           Qs == QualityR(S, start)
           res == r.parts[1]
           slack == RPow10(-9)
           zero == RLt(MaxAbsM(S), RPow10(-5))
       IN  IF ~ValidResult(res, n) THEN "result_is_a_partition"
           ELSE IF ~Near(r.stab, QualityR(S, res)) THEN "reported_quality"
           ELSE IF r.dictOk = FALSE THEN "node_to_group_mapping"
           ELSE IF RLt(MaxAbsM(S), RPow10(-9)) /\ r.fullsupport /\ Len(res) # 1 THEN "no_structure_gives_one_group"
           ELSE IF ~r.inputsKept THEN "inputs_left_unchanged"
           ELSE IF \E x \in 2..Len(r.parts) : ~SameGrouping(r.parts[x], res) THEN "same_seed_same_result"
           ELSE IF zero THEN "ok"
           ELSE IF RLt(QualityR(S, res), RSub(Qs, slack)) THEN "not_worse_than_the_start"
           ELSE IF \E x \in 1..Len(r.prog) : ~ValidResult(r.prog[x], n) THEN "progress_is_partitions"
           ELSE IF r.prog # <<>> /\ ~SameGrouping(r.prog[1], start) THEN "progress_begins_with_the_start"
           ELSE IF r.prog # <<>> /\ ~SameGrouping(r.prog[Len(r.prog)], res) THEN "progress_ends_with_the_result"
           ELSE IF \E x \in 1..Len(r.prog) : ~Near(r.progStab[x], QualityR(S, r.prog[x])) THEN "progress_quality"
           ELSE IF \E x \in 1..(Len(r.prog) - 1) : RLt(r.progStab[x + 1], RSub(r.progStab[x], slack))
                THEN "quality_never_decreases"
           ELSE IF \E x \in 2..(Len(r.prog) - 1) : ~Coarser(r.prog[x], r.prog[x + 1]) THEN "groups_only_grow_together"
           ELSE IF r.generic /\ Len(r.prog) >= 2 /\ \E x, y \in 1..Len(r.prog[2]) : x # y /\
                     \E z \in 1..Len(r.prog[2][x]) :
                        LET i == r.prog[2][x][z]
                            rest == SelectSeq(r.prog[2][x], LAMBDA a : a # i)
                            to == r.prog[2][y]
                        IN  /\ Linked(r, <<i>>, to)
                            /\ RLt(slack, RSub(RAdd(BlockR(S, <<i>>, to), BlockR(S, to, <<i>>)),
                                              RAdd(BlockR(S, <<i>>, rest), BlockR(S, rest, <<i>>))))
                THEN "no_single_move_improves_the_first_level"
           ELSE IF /\ r.generic
                   /\ k0 = n \/ (Len(r.prog) >= 2 /\ RLt(slack, RSub(r.progStab[2], r.progStab[1])))
                   /\ \E x, y \in 1..Len(res) : x < y /\ Linked(r, res[x], res[y])
                     /\ RLt(slack, RAdd(BlockR(S, res[x], res[y]), BlockR(S, res[y], res[x])))
                THEN "no_merge_improves_the_result"
           ELSE "ok"
=============================================================================
