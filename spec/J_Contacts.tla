----------------------------- MODULE J_Contacts -----------------------------
(* Judges recorded simulations.  r.act: activations <<who, when, waiting time>>*)
(* as drawn (the first one of everybody at the start), r.dur: contacts started *)
(* <<who, when, duration>>, r.recs: recorded contacts <<who, with whom, start, *)
(* end>>, r.states: <<time, pairs>>.                                           *)
EXTENDS RealNum, JudgeBase, FiniteSets, FiniteSetsExt
Eq(x, y) == RNear(x, y, 10)
Before(x, y) == RLt(x, y) /\ ~Eq(x, y)
Ix(s) == 1..Len(s)
Groups(r) == {r.groups[k] : k \in Ix(r.groups)}
GroupOf(r, i) == r.groups[i + 1]
InGroup(r, g) == {i \in 0..(r.n - 1) : GroupOf(r, i) = g}
(* probabilities in force at time t: r.probs[1] until r.switch, then r.probs[2] *)
ProbsAt(r, t) == IF r.method = "block_probs_mod" /\ RLeq(r.switch, t) THEN r.probs[2] ELSE r.probs[1]
Reachable(r, i, t) ==          \* groups that i may choose
  IF r.method = "random_uniform" THEN Groups(r)
  ELSE IF r.method = "random_uniform_within_group" THEN {GroupOf(r, i)}
  ELSE {g \in Groups(r) : RLt(R0, ProbsAt(r, t)[GroupOf(r, i) + 1][g + 1])}
Allowed(r, i, t) == UNION {InGroup(r, g) : g \in Reachable(r, i, t)} \ {i}
EndOf(d) == RAdd(d[2], d[3])
(* own contacts that go on at t, not counting those that start at t *)
Busy(r, i, t) == {k \in Ix(r.dur) : r.dur[k][1] = i /\ Before(r.dur[k][2], t) /\ Before(t, EndOf(r.dur[k]))}
StartedAt(r, i, t) == {k \in Ix(r.dur) : r.dur[k][1] = i /\ Eq(r.dur[k][2], t)}
Least(a, b) == IF a < b THEN a ELSE b
(* the number of contacts that an activation starts; -1: it depends on chance *)
Expected(r, i, t) ==
  LET busy == Cardinality(Busy(r, i, t))
      free(g) == Cardinality(InGroup(r, g) \ {i})
  IN  IF r.method \in {"random_uniform", "random_uniform_within_group"}
      THEN Least(r.k, Cardinality(Allowed(r, i, t)) - busy)
      ELSE IF Reachable(r, i, t) = {} THEN 0
      ELSE IF \A g \in Reachable(r, i, t) : free(g) >= busy + r.k THEN r.k
      ELSE -1
Times(r) == {r.act[k][2] : k \in Ix(r.act)} \cup {r.recs[k][4] : k \in Ix(r.recs)}
(* the parameters of the distributions: <<loc, scale>>, switched as the probabilities *)
Plausible(p, v) == RLeq(p[1], RAdd(v, RPow10(-9))) /\ RLeq(v, RAdd(p[1], RMul(RInt(60), p[2])))
ParamAt(r, ps, i, t) == IF r.modulated /\ RLeq(r.switch, t) THEN ps[2][i + 1] ELSE ps[1][i + 1]

ActClause(r, k) ==
  LET a == r.act[k]
      next == RAdd(a[2], a[3])
      First == Eq(a[2], r.tStart)
  IN  IF ~Plausible(ParamAt(r, r.activ, a[1], a[2]), a[3]) THEN "waiting_time_of_the_individual"
      ELSE IF Before(next, r.tEnd)
              /\ Cardinality({m \in Ix(r.act) : r.act[m][1] = a[1] /\ Eq(r.act[m][2], next)}) # 1
           THEN "activation_after_the_waiting_time"
      ELSE IF ~First /\ ~\E m \in Ix(r.act) : r.act[m][1] = a[1] /\ Eq(RAdd(r.act[m][2], r.act[m][3]), a[2])
           THEN "activations_only_after_waiting"
      ELSE IF First \/ ~Before(a[2], r.tEnd) THEN "ok"
      ELSE LET x == Expected(r, a[1], a[2])
               have == Cardinality(StartedAt(r, a[1], a[2]))
           IN  IF have > r.k \/ (x >= 0 /\ have # x) THEN "number_of_contacts_per_activation" ELSE "ok"
DurClause(r, k) ==
  LET d == r.dur[k]
  IN  IF ~Plausible(ParamAt(r, r.inter, d[1], d[2]), d[3]) THEN "duration_of_the_individual"
      ELSE IF ~\E m \in Ix(r.act) : r.act[m][1] = d[1] /\ Eq(r.act[m][2], d[2]) THEN "contacts_start_at_activations"
      ELSE IF Before(EndOf(d), r.tEnd)
              /\ Cardinality({m \in Ix(r.recs) : r.recs[m][1] = d[1] /\ Eq(r.recs[m][3], d[2])
                                                 /\ Eq(r.recs[m][4], EndOf(d))}) # 1
           THEN "ended_contact_is_recorded_once"
      ELSE "ok"
RecClause(r, k) ==
  LET c == r.recs[k]
  IN  IF c[1] \notin 0..(r.n - 1) \/ c[2] \notin 0..(r.n - 1) THEN "individuals_of_the_simulation"
      ELSE IF c[1] = c[2] THEN "no_contact_with_oneself"
      ELSE IF RLt(c[3], r.tStart) \/ RLt(c[4], c[3]) \/ ~Before(c[3], r.tEnd) THEN "contact_starts_in_the_period"
      ELSE IF ~\E m \in Ix(r.dur) : r.dur[m][1] = c[1] /\ Eq(r.dur[m][2], c[3]) /\ Eq(EndOf(r.dur[m]), c[4])
           THEN "recorded_contact_lasts_as_drawn"
      ELSE IF c[2] \notin Allowed(r, c[1], c[3]) THEN "partner_is_allowed"
      ELSE IF \E m \in Ix(r.recs) : m # k /\ r.recs[m][1] = c[1] /\ r.recs[m][2] = c[2]
                 /\ Before(r.recs[m][3], c[4]) /\ Before(c[3], r.recs[m][4]) THEN "not_twice_with_the_same_partner"
      ELSE IF k > 1 /\ RLt(c[4], r.recs[k - 1][4]) THEN "recorded_in_the_order_of_ending"
      ELSE "ok"
StateClause(r, st) ==          \* st = <<time, <<who, with whom>>s>>
  LET t == st[1]
      on(i) == {k \in Ix(r.dur) : r.dur[k][1] = i /\ RLeq(r.dur[k][2], t) /\ Before(t, EndOf(r.dur[k]))}
      P == {<<st[2][k][1], st[2][k][2]>> : k \in Ix(st[2])}
  IN  IF \E k \in Ix(r.recs) : RLeq(r.recs[k][3], t) /\ Before(t, r.recs[k][4]) /\ <<r.recs[k][1], r.recs[k][2]>> \notin P
      THEN "state_shows_the_ongoing_contacts"
      ELSE IF \E i \in 0..(r.n - 1) : Cardinality({p \in P : p[1] = i}) # Cardinality(on(i))
           THEN "state_shows_only_ongoing_contacts"
      ELSE IF ~Eq(t, r.tStart) /\ ~\E u \in Times(r) : Eq(u, t) THEN "states_at_event_times"
      ELSE "ok"
AllStates(r) ==
  IF ~r.allStates THEN "ok"
  ELSE IF \E u \in Times(r) : Before(u, r.tEnd) /\ ~\E k \in Ix(r.states) : Eq(r.states[k][1], u)
       THEN "a_state_for_every_event"
  ELSE FirstBad(LAMBDA k : StateClause(r, r.states[k]), 1, Len(r.states))
SavedStates(r) ==
  IF ~r.dtStates THEN "ok"
  ELSE IF Len(r.saved) = 0 \/ ~Eq(r.saved[1][1], r.tStart) THEN "first_state_at_the_start"
  ELSE IF \E k \in Ix(r.saved) : RLt(r.saved[k][1], RSub(RAdd(r.tStart, RMul(RInt(k - 1), r.dt)), RPow10(-9)))
       THEN "states_not_more_often_than_every_dt"
  ELSE FirstBad(LAMBDA k : StateClause(r, r.saved[k]), 1, Len(r.saved))
VSim(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE IF r.n # Cardinality({r.act[k][1] : k \in {m \in Ix(r.act) : Eq(r.act[m][2], r.tStart)}})
       THEN "everybody_is_activated"
  ELSE LET v1 == FirstBad(LAMBDA k : ActClause(r, k), 1, Len(r.act))
       IN  IF v1 # "ok" THEN v1
  ELSE LET v2 == FirstBad(LAMBDA k : DurClause(r, k), 1, Len(r.dur))
       IN  IF v2 # "ok" THEN v2
  ELSE LET v3 == FirstBad(LAMBDA k : RecClause(r, k), 1, Len(r.recs))
       IN  IF v3 # "ok" THEN v3
  ELSE LET v4 == AllStates(r)
       IN  IF v4 # "ok" THEN v4 ELSE SavedStates(r)

(* Frequencies over many contacts: every count is within 6 standard deviations *)
(* of its mean.                                                                *)
Within(count, total, p) ==
  LET m == RMul(RInt(total), p)
      sd == RSqrt(RMul(m, RMax(R0, RSub(R1, p))))
  IN  RLeq(RAbs(RSub(RInt(count), m)), RAdd(RInt(6), RMul(RInt(6), sd)))
VFreq(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE IF \E i, j \in 1..r.n : ~Within(r.counts[i][j], r.totals[i], r.want[i][j]) THEN "partners_by_their_probability"
  ELSE IF \E i \in 1..r.n : ~RNear(RDiv(r.meanDur[i], r.scales[i]), R1, 0) \/
             RLt(RInt(6), RMul(RSqrt(RInt(r.totals[i])), RAbs(RSub(RDiv(r.meanDur[i], r.scales[i]), R1))))
       THEN "mean_of_the_durations"
  ELSE IF \E i \in 1..r.n : RLt(RInt(6), RMul(RSqrt(RInt(r.waits[i])), RAbs(RSub(RDiv(r.meanWait[i], r.wait), R1))))
       THEN "mean_of_the_waiting_times"
  ELSE "ok"
=============================================================================
