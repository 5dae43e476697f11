----------------------------- MODULE J_NetCache -----------------------------
(* A walk of computations on one network object: whatever matrices can be read *)
(* after any of them are the ones of the wanted provenance.                    *)
EXTENDS J_TempNet, NetCache
(* r.pool: the distinct matrix lists that were seen; a step shows <<kind, rate, *)
(* mixing time, index into the pool>> for everything that can be read.          *)
WinOf(r, p) == r.windows[CHOOSE k \in 1..Len(r.windows) : r.wnames[k] = p[1]]
RateOf(r, l) == r.rates[CHOOSE k \in 1..Len(r.rates) : r.lnames[k] = l]
TsOf(r, t) == r.tss[CHOOSE k \in 1..Len(r.tss) : r.tnames[k] = t]
LapWant(r, H, ts, p, adj) ==
  LET ks == Intervals(ts, WinOf(r, p))
  IN  [k \in 1..Len(ks) |-> IF adj THEN AdjOf(ActiveAt(H, ts[ks[k]]), N(r)) ELSE LapOf(ActiveAt(H, ts[ks[k]]), N(r))]
StepWant(r, H, ts, key, p) ==       \* p = <<<<window>>, fix>>
  InterWant(r, H, ts, WinOf(r, p[1]),
            [fixTau |-> p[2], lin |-> key[1] = "lin", ts |-> IF key[1] = "lin" THEN TsOf(r, key[3]) ELSE R0],
            RateOf(r, key[2]))
WantOf(r, H, ts, key, p) ==
  CASE key[1] = "lap" -> LapWant(r, H, ts, p, FALSE)
    [] key[1] = "adj" -> LapWant(r, H, ts, p, TRUE)
    [] key[1] \in StepKinds -> StepWant(r, H, ts, key, p)
    [] key[1] \in CumKinds ->        \* p = <<step, rev, keep, tol>>
         LET ms == StepWant(r, H, ts, Key(StepOf(key[1]), key[2], key[3]), p[1])
             all == Cumul(IF p[2] THEN Reverse(ms) ELSE ms, 2, <<IF p[2] THEN ms[Len(ms)] ELSE ms[1]>>)
         IN  IF p[3] THEN all ELSE <<all[Len(all)]>>
Digits(key, p) == IF key[1] \in CumKinds /\ p[4] = "tol" THEN 5 ELSE 8
SameMats(a, b, d) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : MNear(a[k], b[k], d)

RECURSIVE Follow(_, _, _, _, _, _)
Follow(r, H, ts, k, c, seen) ==
  IF k > Len(r.steps) THEN "ok"
  ELSE LET o == r.ops[k]
           b == r.steps[k]
           c1 == TLCEval(Apply(c, o))
           shown == {<<<<b.shown[x][1], b.shown[x][2], b.shown[x][3]>>, b.shown[x][4]>> : x \in 1..Len(b.shown)}
           todo == {s \in shown : <<s, Get(c1, s[1])>> \notin seen}
           asked == CASE o.op = "lap" -> {LapKey}
                      [] o.op = "step" -> {LapKey, Key(o.kind, o.l, o.t)}
                      [] o.op = "cum" /\ ~Refused(c, o) -> {Key(o.kind, o.l, o.t)}
                      [] OTHER -> {}
       IN  IF Refused(c, o) # (b.exc # "") THEN (IF b.exc = "" THEN "refused_without_steps" ELSE "raised_" \o b.exc)
           ELSE IF \E x \in asked : \A s \in shown : s[1] # x THEN "computed_matrices_are_there"
           ELSE IF o.op \in {"restore", "pickle"} /\ ~b.sameKeys THEN "restored_network_has_the_same_matrices"
           ELSE IF \E s \in shown : s[1] \notin DOMAIN c1 THEN "no_matrices_of_earlier_parameters"
           ELSE IF \E s \in todo : ~SameMats(r.pool[s[2]], WantOf(r, H, ts, s[1], c1[s[1]]), Digits(s[1], c1[s[1]]))
                THEN "matrices_reflect_the_current_parameters"
           ELSE Follow(r, H, ts, k + 1, c1, seen \cup {<<s, Get(c1, s[1])>> : s \in shown})
VCache(r) == IF r.raised # "" THEN "raised_" \o r.raised
             ELSE LET H == Effective(r) IN Follow(r, H, MergedEnds(r, H), 1, Empty, {})
=============================================================================
