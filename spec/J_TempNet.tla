----------------------------- MODULE J_TempNet -----------------------------
(* Judges what the implementation made of a history of events.                 *)
EXTENDS TempNet, JudgeBase

Effective(r) == LET h == IF r.inst THEN InstHistory(r.ev, r.one) ELSE r.ev
                IN  IF r.relabel THEN Relabel(h) ELSE h
Real(r, t) == RAdd(r.off, RMul(RInt(t), r.unit))
N(r) == NumNodes(r.ev)
(* the sum of the contact times of a pair, as a real *)
Dur(r, x) == RMul(RInt(x), r.unit)

(* ---- construction (C04) ---- *)
EvOf(r, e) == <<e[1], e[2], Real(r, e[3]), Real(r, e[4])>>
CountIn(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : CountIn(s, s[k]) = CountIn(t, s[k])
PairsObs(r, p) == SelectSeq(r.table, LAMBDA e : {e[1], e[2]} = p)
IntervalsObs(r, p) == [k \in 1..Len(PairsObs(r, p)) |-> <<PairsObs(r, p)[k][3], PairsObs(r, p)[k][4]>>]
SortedTable(t) == \A k \in 1..(Len(t) - 1) :
                    \/ RLt(t[k][3], t[k + 1][3])
                    \/ REq(t[k][3], t[k + 1][3]) /\ RLeq(t[k][4], t[k + 1][4])

VTable(r, H) ==
  LET T == TimeSet(H)
  IN
  IF r.numEvents # Len(r.table) THEN "number_of_events"
  ELSE IF ~REq(r.startTime, Real(r, MinInt({Sta(e) : e \in SetOf(H)}))) THEN "start_time"
  ELSE IF ~REq(r.endTime, Real(r, MaxInt({End(e) : e \in SetOf(H)}))) THEN "end_time"
  ELSE IF \E k \in 1..Len(r.table) :
            ~RNear(r.table[k][5], IF r.inst THEN R1 ELSE RSub(r.table[k][4], r.table[k][3]), 9)
       THEN "durations"
  ELSE IF r.form = "lists" /\ ~r.merge /\ ~SortedTable(r.table) THEN "events_in_time_order"
  ELSE IF ~r.inputKept THEN "input_is_left_alone"
  ELSE "ok"
VConstruct(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised ELSE
  LET H == Effective(r)
      n == N(r)
      L == SortInts(Labels(r.ev))
  IN
  IF r.numNodes # n THEN "number_of_nodes"
  ELSE IF r.nodeArray # [k \in 1..n |-> k - 1] THEN "nodes_are_0_to_n"
  ELSE IF r.labels # L THEN "labels_recover_the_original_nodes"
  ELSE IF r.merge
       THEN IF \E p \in PairsOf(H) :
                 LET m == MergedIntervals(H, p)
                     want == [k \in 1..Len(m) |-> <<Real(r, m[k][1]), Real(r, m[k][2])>>]
                 IN  ~SameBag(want, IntervalsObs(r, p)) THEN "merging_keeps_contact_times"
            ELSE IF \E k \in 1..Len(r.table) : {r.table[k][1], r.table[k][2]} \notin PairsOf(H)
                 THEN "merging_invents_contacts"
            ELSE VTable(r, H)
  ELSE IF ~SameBag([k \in 1..Len(H) |-> EvOf(r, H[k])],
                   [k \in 1..Len(r.table) |-> <<r.table[k][1], r.table[k][2], r.table[k][3], r.table[k][4]>>])
       THEN "events_are_kept"
  ELSE IF r.hasUid /\ \E k \in 1..Len(r.table) :
            LET u == r.table[k][6]
            IN  u \notin 1..Len(H) \/ EvOf(r, H[u]) # <<r.table[k][1], r.table[k][2], r.table[k][3], r.table[k][4]>>
       THEN "attributes_stay_with_their_event"
  ELSE VTable(r, H)

(* what is no history of events is refused *)
VRefused(r) == IF r.raised # "" THEN "raised_" \o r.raised
               ELSE IF ~r.refused THEN "refused_" \o r.how
               ELSE "ok"

(* ---- Laplacians (C03): a sequence of computations on one network ---- *)
MergedEnds(r, H) == IF ~r.merge THEN TimeSeq(H)
   ELSE SortInts(UNION {LET m == MergedIntervals(H, p) IN {m[k][1] : k \in 1..Len(m)} \cup {m[k][2] : k \in 1..Len(m)}
                         : p \in PairsOf(H)})
LapClause(r, H, ts, w, o) ==
  LET n == N(r)
      ks == Intervals(ts, w)
  IN
  IF o.raised # "" THEN "raised_" \o o.raised
  ELSE IF ~VNear(o.times, [k \in 1..Len(ts) |-> Real(r, ts[k])], 12) THEN "time_grid"
  ELSE IF Len(o.laps) # Len(ks) THEN "number_of_intervals_in_window"
  ELSE IF \E k \in 1..Len(ks) : ~MNear(o.laps[k], LapOf(ActiveAt(H, ts[ks[k]]), n), 12)
       THEN "laplacian_of_active_contacts"
  ELSE IF w.adj /\ (Len(o.adjs) # Len(ks) \/ \E k \in 1..Len(ks) :
                       ~MNear(o.adjs[k], AdjOf(ActiveAt(H, ts[ks[k]]), n), 12))
       THEN "adjacency_of_active_contacts"
  ELSE "ok"
VLap(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised ELSE
  LET H == Effective(r)
      ts == MergedEnds(r, H)
  IN  FirstBad(LAMBDA k : LapClause(r, H, ts, r.windows[k], r.obs[k]), 1, Len(r.windows))

(* ---- static adjacency ---- *)
VStatic(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised ELSE
  LET H == Effective(r)
      n == N(r)
      T == TimeSet(H)
      Want(w) == LET a == IF w.hasStart THEN w.start ELSE MinInt(T)
                     b == IF w.hasStop THEN w.stop ELSE MaxInt(T)
                 IN  [i \in 1..n |-> [j \in 1..n |->
                        IF i = j THEN R0 ELSE Dur(r, ContactTime(H, {i - 1, j - 1}, a, b))]]
  IN  FirstBad(LAMBDA k : IF r.obs[k].raised # "" THEN "raised_" \o r.obs[k].raised
                          ELSE IF ~MNear(r.obs[k].adj, Want(r.windows[k]), 9) THEN "aggregated_contact_time"
                          ELSE "ok", 1, Len(r.windows))

(* ---- inter-event transition matrices (C05) ---- *)
(* every computation: a window (new Laplacians), then calls with parameters    *)
MedianDiff(r, ts) ==
  LET d == SortSeq([k \in 1..(Len(ts) - 1) |-> ts[k + 1] - ts[k]], <)
      m == Len(d)
  IN  IF m % 2 = 1 THEN Dur(r, d[(m + 1) \div 2])
      ELSE RDiv(Dur(r, d[m \div 2] + d[m \div 2 + 1]), RInt(2))
Tau(r, ts, c, k) == IF c.fixTau \/ r.inst THEN R1 ELSE Dur(r, ts[k + 1] - ts[k])
InterWant(r, H, ts, w, c, lam) ==
  LET n == N(r)
      ks == Intervals(ts, w)
  IN  IF ks = <<>> THEN <<Ident(n)>>
      ELSE [k \in 1..Len(ks) |->
             LET C == ActiveAt(H, ts[ks[k]])
                 x == RMul(lam, Tau(r, ts, c, ks[k]))
             IN  IF c.lin THEN LinStep(C, n, x, c.ts) ELSE ExpStep(C, n, x)]
InterClause(r, H, ts, w, c, o) ==
  LET lam == IF c.defaultLamda THEN RDiv(R1, MedianDiff(r, ts)) ELSE c.lamda
  IN
  IF o.raised # "" THEN "raised_" \o o.raised
  ELSE IF ~RNear(o.lamda, lam, 10) THEN "rate_of_the_matrices"
  ELSE LET want == InterWant(r, H, ts, w, c, lam)
       IN  IF Len(o.mats) # Len(want) THEN "number_of_transition_matrices"
           ELSE IF \E k \in 1..Len(want) : ~Stochastic(o.mats[k], 9) THEN "rows_are_probabilities"
           ELSE IF \E k \in 1..Len(want) : ~MNear(o.mats[k], want[k], 8)
                THEN (IF c.lin THEN "linear_approximation_of_the_walk" ELSE "exponential_of_the_laplacian")
           ELSE "ok"
VInter(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised ELSE
  LET H == Effective(r)
      ts == MergedEnds(r, H)
  IN  FirstBad(LAMBDA k : InterClause(r, H, ts, r.windows[r.calls[k].w], r.calls[k], r.obs[k]), 1, Len(r.calls))

(* the functions behind the linear approximation, on one graph of contacts *)
(* The spectral gap of a connected graph, by Sylvester's law: as many          *)
(* eigenvalues of the Laplacian lie below g as D L - g D has negative pivots.  *)
RECURSIVE NegPivots(_)
NegPivots(S) ==
  IF S = <<>> THEN 0
  ELSE LET p == S[1][1]
           m == Len(S) - 1
           rest == TLCEval([i \in 1..m |-> [j \in 1..m |->
                     RSub(S[i + 1][j + 1], RDiv(RMul(S[i + 1][1], S[1][j + 1]), p))]])
       IN  (IF RLt(p, R0) THEN 1 ELSE 0) + NegPivots(rest)
Below(C, n, g) == NegPivots([i \in 1..n |-> [j \in 1..n |->
                    IF i = j THEN RMul(RInt(Degree(C, i - 1)), RSub(R1, g))
                    ELSE IF {i - 1, j - 1} \in C THEN RInt(-1) ELSE R0]])
IsGap(C, n, g) == /\ IsFin(g)
                  /\ Below(C, n, RMul(g, RSub(R1, RPow10(-6)))) = 1
                  /\ Below(C, n, RMul(g, RAdd(R1, RPow10(-6)))) > 1
WalkClause(r, C, c, o) ==
  IF c.fct = "gap" THEN
    (IF o.raised # "" THEN "raised_" \o o.raised
     ELSE IF ~IsGap(C, r.n, o.T[1][1]) THEN "spectral_gap"
     ELSE IF ~o.kept THEN "input_left_unchanged" ELSE "ok")
  ELSE
  LET want == IF c.fct \in {"stationary", "compact_stationary"} THEN StatOf(C, r.n) ELSE LinStep(C, r.n, c.x, c.ts)
  IN  IF o.raised # "" THEN "raised_" \o o.raised
      ELSE IF ~MNear(o.T, want, 10) THEN c.fct \o "_walk"
      ELSE IF ~o.kept THEN "input_left_unchanged"
      ELSE "ok"
VWalk(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised ELSE
  LET C == {{r.edges[k][1], r.edges[k][2]} : k \in 1..Len(r.edges)}
  IN  FirstBad(LAMBDA k : WalkClause(r, C, r.calls[k], r.obs[k]), 1, Len(r.calls))

(* ---- cumulative transition matrices (C06) ---- *)
(* o.inter: the inter-event matrices seen by the caller before the call, o.mats *)
(* the cumulative ones, o.interAfter the inter-event matrices afterwards.       *)
RECURSIVE Cumul(_, _, _)
Cumul(ms, k, acc) == IF k > Len(ms) THEN acc
                     ELSE Cumul(ms, k + 1, Append(acc, TLCEval(MMul(acc[Len(acc)], ms[k]))))
CumClause(r, c, o) ==
  IF o.raised # "" THEN "raised_" \o o.raised
  ELSE LET ms == IF c.reverse THEN Reverse(o.inter) ELSE o.inter
           all == Cumul(ms, 2, <<ms[1]>>)
           want == IF c.keep THEN all ELSE <<all[Len(all)]>>
           k0 == IF c.hasTol THEN c.tolDigits ELSE 9
       IN  IF Len(o.mats) # Len(want) THEN "number_of_transition_matrices"
           ELSE IF \E k \in 1..Len(want) : ~Stochastic(o.mats[k], 9) THEN "rows_are_probabilities"
           ELSE IF \E k \in 1..Len(want) : ~MNear(o.mats[k], want[k], k0) THEN "product_of_the_steps"
           ELSE IF Len(o.interAfter) # Len(o.inter)
                   \/ \E k \in 1..Len(o.inter) : ~MNear(o.interAfter[k], o.inter[k], 14)
                THEN "inputs_left_unchanged"
           ELSE "ok"
VCumul(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised ELSE
  FirstBad(LAMBDA k : CumClause(r, r.calls[k], r.obs[k]), 1, Len(r.calls))
=============================================================================
