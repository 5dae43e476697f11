----------------------------- MODULE J_Parallel -----------------------------
(* Judges computations that are split over processes. *)
EXTENDS LinAlg, StarWalk, Compare, JudgeBase, SequencesExt

BlockR(S, A, B) == RSum([x \in 1..(Len(A) * Len(B)) |->
                      S[A[((x - 1) \div Len(B)) + 1] + 1][B[((x - 1) % Len(B)) + 1] + 1]])
QualityR(S, cl) == RSum([c \in 1..Len(cl) |-> BlockR(S, cl[c], cl[c])])
IsPart(cl, n) == /\ UNION {ToSet(cl[x]) : x \in 1..Len(cl)} = 0..(n - 1)
                 /\ MapThenSumSet(LAMBDA x : Len(cl[x]), 1..Len(cl)) = n
                 /\ \A x \in 1..Len(cl) : cl[x] # <<>>
SameGroups(a, b) == {ToSet(a[x]) : x \in 1..Len(a)} = {ToSet(b[x]) : x \in 1..Len(b)}

(* ---- exponentials ---- *)
(* r.A: minus a Laplacian; results of the variants, each with its trimming *)
RECURSIVE MaxOf(_)
MaxOf(s) == SeqMax(s, R0)
TrimCols(M, ratio) == LET mx == [j \in 1..Len(M) |-> MaxOf(Col(M, j))]
   IN  [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF RLt(M[i][j], RDiv(mx[j], ratio)) THEN R0 ELSE M[i][j]]]
TrimAll(M, ratio) == LET mx == MaxOf([i \in 1..Len(M) |-> MaxOf(M[i])])
   IN  [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF RLt(M[i][j], RDiv(mx, ratio)) THEN R0 ELSE M[i][j]]]
WantExp(E, c) ==
  LET t == IF ~c.hasThr THEN E ELSE IF c.fct = "columns" THEN TrimCols(E, c.thr) ELSE TrimAll(E, c.thr)
  IN  IF c.norm THEN NormRows(t) ELSE t
VExpm(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET E == TLCEval(Expm(r.A))
       IN  FirstBad(LAMBDA k :
              IF r.obs[k].raised # "" THEN r.calls[k].fct \o "_raised_" \o r.obs[k].raised
              ELSE IF ~MNear(r.obs[k].T, WantExp(E, r.calls[k]), 8) THEN "exponential_by_" \o r.calls[k].fct
              ELSE IF ~r.obs[k].kept THEN "input_left_unchanged"
              ELSE "ok", 1, Len(r.calls))
(* many stars, too large for the above: entries of the result by their role.   *)
(* probe: hub, two leaves of a star, a node of another star                    *)
StarClause(m, o, x) ==
             IF ~RNear(o.hh, HubHub(x, m), 8) \/ ~RNear(o.hl, HubLeaf(x, m), 8) \/ ~RNear(o.lh, LeafHub(x, m), 8)
                \/ ~RNear(o.ll, LeafSelf(x, m), 8) \/ (m > 1 /\ ~RNear(o.lk, LeafLeaf(x, m), 8))
             THEN "exponential_of_large_networks"
             ELSE IF ~RNear(o.inside, RInt(m + 1), 8) \/ ~RNear(o.outside, R0, 8) THEN "walkers_stay_in_their_component"
             ELSE "ok"
(* with small entries dropped: each role of a star is kept or not, and then the *)
(* rows are scaled to probabilities                                             *)
Roles(x, m) == <<HubHub(x, m), HubLeaf(x, m), LeafHub(x, m), LeafSelf(x, m)>> \o (IF m > 1 THEN <<LeafLeaf(x, m)>> ELSE <<>>)
AllRoles(r) == FoldLeft(LAMBDA q, m : q \o Roles(r.x, m), <<>>, r.stars)
Cut(r) == RDiv(MaxOf(AllRoles(r)), r.thr)
Undecided(r) == \E k \in 1..Len(AllRoles(r)) : RNear(RDiv(AllRoles(r)[k], Cut(r)), R1, 6)
Kept(v, cut) == IF RLt(v, cut) THEN R0 ELSE v
TrimmedClause(m, o, x, cut, norm) ==
  LET q == [k \in 1..Len(Roles(x, m)) |-> Kept(Roles(x, m)[k], cut)]
      ll == IF m > 1 THEN q[5] ELSE R0
      hub == RAdd(q[1], RMul(RInt(m), q[2]))
      leaf == RAdd(RAdd(q[3], q[4]), RMul(RInt(m - 1), ll))
      Sc(v, s) == IF norm /\ ~REq(s, R0) THEN RDiv(v, s) ELSE v
  IN  IF \/ ~RNear(o.hh, Sc(q[1], hub), 8) \/ ~RNear(o.hl, Sc(q[2], hub), 8) \/ ~RNear(o.lh, Sc(q[3], leaf), 8)
         \/ ~RNear(o.ll, Sc(q[4], leaf), 8) \/ (m > 1 /\ ~RNear(o.lk, Sc(ll, leaf), 8))
      THEN "small_entries_are_dropped"
      ELSE IF ~RNear(o.inside, RAdd(Sc(hub, hub), RMul(RInt(m), Sc(leaf, leaf))), 8) \/ ~RNear(o.outside, R0, 8)
           THEN "walkers_stay_in_their_component"
      ELSE "ok"
VStars(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE IF Len(r.probes) # Len(r.stars) THEN "every_component"
  ELSE IF r.hasThr /\ Undecided(r) THEN "ok"
  ELSE IF r.hasThr
       THEN LET cut == TLCEval(Cut(r))
            IN  FirstBad(LAMBDA k : TrimmedClause(r.stars[k], r.probes[k], r.x, cut, r.norm), 1, Len(r.stars))
  ELSE FirstBad(LAMBDA k : StarClause(r.stars[k], r.probes[k], r.x), 1, Len(r.stars))
(* in interval k only some of the stars meet: walkers elsewhere do not move    *)
VStarNet(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE IF Len(r.probes) # Len(r.parts) THEN "number_of_transition_matrices"
  ELSE FirstBad(LAMBDA i :
         FirstBad(LAMBDA k : StarClause(r.stars[k], r.probes[i][k],
                                        IF \E j \in 1..Len(r.parts[i].stars) : r.parts[i].stars[j] = k
                                        THEN RMul(r.lamda, r.parts[i].dt) ELSE R0),
                  1, Len(r.stars)), 1, Len(r.parts))

(* ---- comparison of clusterings; every node stands for r.copies nodes ---- *)
Fn(s) == [i \in 0..(Len(s) - 1) |-> s[i + 1]]
Prs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
OrderedPairs(n) == SetToSortSeq(Prs(n), LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
VNvi(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET n == Len(r.list[1])
           ps == OrderedPairs(Len(r.list))
           scale == IF n * r.copies = 1 THEN R1
                    ELSE IF n = 1 THEN R0 ELSE RDiv(RLog2(RInt(n)), RLog2(RInt(n * r.copies)))
           want == [k \in 1..Len(ps) |-> RMul(scale, NVI(Fn(r.list[ps[k][1]]), Fn(r.list[ps[k][2]])))]
           IsSub(s, t) ==   \* s is a subsequence of t (values in order)
             LET RECURSIVE Go(_, _)
                 Go(i, j) == IF i > Len(s) THEN TRUE ELSE IF j > Len(t) THEN FALSE
                             ELSE IF RNear(s[i], t[j], 10) THEN Go(i + 1, j + 1) ELSE Go(i, j + 1)
             IN  Go(1, 1)
       IN  IF r.samples = 0 \/ r.samples >= Len(want)
           THEN IF VNear(r.vals, want, 10) THEN "ok" ELSE "values_of_the_pairs_in_order"
           ELSE IF Len(r.vals) # r.samples THEN "number_of_samples"
           ELSE IF IsSub(r.vals, want) THEN "ok" ELSE "values_of_sampled_pairs_in_order"

(* ---- repeated clustering ---- *)
VRepeat(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET k == Len(r.clusters)
       IN  IF k # r.repeat \/ Len(r.stabs) # k \/ Len(r.seeds) # k THEN "number_of_repetitions"
           ELSE IF \E x, y \in 1..k : x # y /\ r.seeds[x] = r.seeds[y] THEN "repetitions_differ_in_their_seed"
           ELSE FirstBad(LAMBDA x :
              IF ~IsPart(r.clusters[x], r.n) THEN "result_is_a_partition"
              ELSE IF ~RNear(r.stabs[x], QualityR(r.S, r.clusters[x]), 9) THEN "quality_of_each_result"
              ELSE IF ~SameGroups(r.clusters[x], r.serial[x]) THEN "serial_result_of_the_seed"
              ELSE "ok", 1, k)
=============================================================================
