----------------------------- MODULE J_Compare -----------------------------
EXTENDS Compare, LinAlg, JudgeBase, SequencesExt
Fn(s) == [i \in 0..(Len(s) - 1) |-> s[i + 1]]
Same(x, y) == RNear(x, y, 10)
(* one measure, with the arguments in this and in the other order *)
Measure(o, want, name) ==
  IF o.raised # "" THEN name \o "_raised_" \o o.raised
  ELSE IF ~Same(o.xy, want) THEN name
  ELSE IF ~Same(o.yx, want) THEN name \o "_of_swapped_arguments"
  ELSE IF ~o.kept THEN name \o "_leaves_its_arguments_unchanged"
  ELSE "ok"
VCompare(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET f == Fn(r.f)  g == Fn(r.g)
           v == << Measure(r.jac, Jaccard(f, g), "jaccard_distance"),
                   Measure(r.nmi, NMI(f, g), "mutual_information"),
                   Measure(r.nvi, NVI(f, g), "variation_of_information") >>
       IN  FirstBad(LAMBDA k : v[k], 1, 3)
(* every node stands for r.copies nodes: entropies are the same *)
VMany(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET f == Fn(r.f)  g == Fn(r.g)
           n == Len(r.f)
           scale == IF n = 1 THEN R0 ELSE RDiv(RLog2(RInt(n)), RLog2(RInt(n * r.copies)))
           v == << Measure(r.nmi, NMI(f, g), "mutual_information"),
                   Measure(r.nvi, RMul(scale, NVI(f, g)), "variation_of_information") >>
       IN  FirstBad(LAMBDA k : v[k], 1, 2)
(* averages over pairs *)
Prs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
VAverage(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET m == Len(r.list)
           F(k) == Fn(r.list[k])
           V == [p \in Prs(m) |-> NVI(F(p[1]), F(p[2]))]
           Ordered == SetToSortSeq(Prs(m), LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
           vals == [k \in 1..Len(Ordered) |-> V[Ordered[k]]]
           Subsets(k) == {S \in SUBSET (1..Len(vals)) : Cardinality(S) = k}
           Mean(S) == RDiv(RSumOver(LAMBDA x : vals[x], S), RInt(Cardinality(S)))
       IN  IF ~Same(r.avg, Mean(1..Len(vals))) THEN "average_over_all_pairs"
           ELSE IF r.hasSample /\ ~\E S \in Subsets(IF r.samples < Len(vals) THEN r.samples ELSE Len(vals)) : Same(r.sample, Mean(S))
                THEN "average_over_that_many_pairs"
           ELSE IF ~VNear(r.pairs, vals, 10) THEN "values_of_the_pairs_in_order"
           ELSE "ok"
(* clusters reordered to follow a model *)
VSort(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET cl == [k \in 1..Len(r.clusters) |-> ToSet(r.clusters[k])]
           md == [k \in 1..Len(r.model) |-> ToSet(r.model[k])]
           res == [k \in 1..Len(r.sorted) |-> ToSet(r.sorted[k])]
           hit == {k \in 1..Len(md) : \E x \in 1..Len(cl) : cl[x] \cap md[k] # {}}
       IN  IF Len(res) # Len(cl) \/ ToSet(res) # ToSet(cl) THEN "same_clusters"
           ELSE IF ToSet(cl) = ToSet(md) /\ res # md THEN "order_of_an_equal_model"
           ELSE IF hit # {} /\ \E x \in 1..Len(cl) : RLt(RAdd(Overlap(res[1], md[Min(hit)]), RPow10(-12)), Overlap(cl[x], md[Min(hit)]))
                THEN "most_similar_to_the_first_of_the_model"
           ELSE IF \E x \in 1..Len(res), y \in 1..Len(res) : x < y /\ (\A k \in 1..Len(md) : res[x] \cap md[k] = {})
                                            /\ (\E k \in 1..Len(md) : res[y] \cap md[k] # {})
                THEN "unrelated_clusters_come_last"
           ELSE IF ~r.kept THEN "arguments_left_unchanged"
           ELSE "ok"
=============================================================================
