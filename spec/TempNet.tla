------------------------------ MODULE TempNet ------------------------------
(* Temporal networks: what a history of contact events means.                  *)
(*                                                                             *)
(* An event is <<source, target, start, end>>; nodes and times are integers    *)
(* (times are ticks).  A contact {i, j} is active at t when some event of the  *)
(* pair started at or before t and ends after t.  Everything the analysis is   *)
(* built on (time grid, windows, Laplacians, merged events, static adjacency,  *)
(* inter-event transition matrices) is defined from the set of events alone.   *)
EXTENDS LinAlg, SequencesExt

Src(e) == e[1]   Tgt(e) == e[2]   Sta(e) == e[3]   End(e) == e[4]
Pair(e) == {Src(e), Tgt(e)}
SetOf(s) == {s[k] : k \in 1..Len(s)}
SortInts(S) == SetToSortSeq(S, <)
MinInt(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxInt(S) == CHOOSE x \in S : \A y \in S : x >= y

(* ---- nodes ---- *)
Labels(H) == UNION {Pair(e) : e \in SetOf(H)}
NodeOf(H, l) == Cardinality({m \in Labels(H) : m < l})       \* 0 .. n-1, in label order
Relabel(H) == LET L == Labels(H)
                  rank == [l \in L |-> Cardinality({m \in L : m < l})]
              IN  [k \in 1..Len(H) |-> <<rank[Src(H[k])], rank[Tgt(H[k])], Sta(H[k]), End(H[k])>>]
NumNodes(H) == Cardinality(Labels(H))

(* ---- time ---- *)
TimeSet(H) == {Sta(e) : e \in SetOf(H)} \cup {End(e) : e \in SetOf(H)}
TimeSeq(H) == SortInts(TimeSet(H))
(* instantaneous events last until the next event time, the last ones 1 *)
StartSet(H) == {Sta(e) : e \in SetOf(H)}
InstEnd(H, t, one) == LET later == {u \in StartSet(H) : u > t}
                      IN  IF later = {} THEN t + one ELSE MinInt(later)
InstHistory(H, one) == [k \in 1..Len(H) |-> <<Src(H[k]), Tgt(H[k]), Sta(H[k]),
                                              InstEnd(H, Sta(H[k]), one)>>]
Snap(ts, t) == IF t <= ts[1] THEN 1 ELSE MaxInt({k \in 1..Len(ts) : ts[k] <= t})
(* A window is given by bounds that need not be event times. *)
FirstK(ts, w) == IF w.hasStart THEN Snap(ts, w.start) ELSE 1
LastK(ts, w) == IF w.hasStop THEN Snap(ts, w.stop) ELSE Len(ts)
Intervals(ts, w) == [k \in 1..(IF LastK(ts, w) > FirstK(ts, w) THEN LastK(ts, w) - FirstK(ts, w) ELSE 0)
                       |-> FirstK(ts, w) + k - 1]

(* ---- contacts ---- *)
ActiveAt(H, t) == {Pair(e) : e \in {x \in SetOf(H) : Sta(x) <= t /\ t < End(x)}}
Degree(C, i) == Cardinality({p \in C : i \in p})
(* random walk on the active contacts; a node without contact stays where it is *)
WalkOf(C, n) == [i \in 1..n |-> [j \in 1..n |->
                  IF i = j THEN (IF Degree(C, i - 1) = 0 THEN R1 ELSE R0)
                  ELSE IF {i - 1, j - 1} \in C THEN RFrac(1, Degree(C, i - 1)) ELSE R0]]
LapOf(C, n) == MSub(Ident(n), WalkOf(C, n))
AdjOf(C, n) == [i \in 1..n |-> [j \in 1..n |-> IF i # j /\ {i - 1, j - 1} \in C THEN R1 ELSE R0]]

(* ---- merging ---- *)
PairsOf(H) == {Pair(e) : e \in SetOf(H)}
PairEvents(H, p) == SortSeq(SelectSeq(H, LAMBDA e : Pair(e) = p),
                            LAMBDA x, y : Sta(x) < Sta(y) \/ (Sta(x) = Sta(y) /\ End(x) < End(y)))
RECURSIVE MergeRun(_, _)
MergeRun(s, acc) ==        \* acc: merged intervals, the last one still open to merging
  IF s = <<>> THEN acc
  ELSE LET e == Head(s)
       IN  IF acc # <<>> /\ Sta(e) < acc[Len(acc)][2]
           THEN MergeRun(Tail(s), [acc EXCEPT ![Len(acc)][2] =
                                     IF End(e) > acc[Len(acc)][2] THEN End(e) ELSE acc[Len(acc)][2]])
           ELSE MergeRun(Tail(s), Append(acc, <<Sta(e), End(e)>>))
MergedIntervals(H, p) == MergeRun(PairEvents(H, p), <<>>)

(* ---- aggregated contact time between two ticks ---- *)
Clip(e, a, b) == LET lo == IF Sta(e) > a THEN Sta(e) ELSE a
                     hi == IF End(e) < b THEN End(e) ELSE b
                 IN  IF hi > lo THEN hi - lo ELSE 0
RECURSIVE SumClip(_, _, _)
SumClip(s, a, b) == IF s = <<>> THEN 0 ELSE Clip(Head(s), a, b) + SumClip(Tail(s), a, b)
ContactTime(H, p, a, b) == SumClip(SelectSeq(H, LAMBDA e : Pair(e) = p), a, b)

(* ---- components and the stationary walk ---- *)
Neigh(C, i) == {j \in UNION C : j # i /\ {i, j} \in C}
RECURSIVE Reach(_, _)
Reach(C, S) == LET N == S \cup UNION {Neigh(C, i) : i \in S} IN IF N = S THEN S ELSE Reach(C, N)
StatOf(C, n) ==
  LET deg == [i \in 0..(n - 1) |-> IF Degree(C, i) = 0 THEN 1 ELSE Degree(C, i)]
      comp == [i \in 0..(n - 1) |-> Reach(C, {i})]
      RECURSIVE Tot(_)
      Tot(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN deg[x] + Tot(S \ {x})
      tot == [i \in 0..(n - 1) |-> Tot(comp[i])]
  IN  [i \in 1..n |-> [j \in 1..n |-> IF (j - 1) \in comp[i - 1] THEN RFrac(deg[j - 1], tot[i - 1]) ELSE R0]]

(* ---- inter-event transition matrices; x = rate * duration (a real) ---- *)
ExpStep(C, n, x) == IF C = {} THEN Ident(n) ELSE Expm(MScale(RNeg(x), LapOf(C, n)))
LinStep(C, n, x, ts) ==
  LET T == WalkOf(C, n)
  IN  IF RLeq(x, R1) THEN MAdd(MScale(RSub(R1, x), Ident(n)), MScale(x, T))
      ELSE IF RLt(x, ts)
           THEN MScale(RDiv(R1, RSub(R1, ts)),
                       MAdd(MScale(RSub(x, ts), T), MScale(RSub(R1, x), StatOf(C, n))))
           ELSE StatOf(C, n)
=============================================================================
