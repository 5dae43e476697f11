---------------------------- MODULE MC_TempNet ----------------------------
(* The sweep over the time grid as a state machine, for every history of up to *)
(* MaxEv events: the incremental bookkeeping (number of ongoing events per     *)
(* pair) always agrees with the declarative meaning (ActiveAt), from whatever  *)
(* time the sweep starts.  Finished histories are emitted for replay.          *)
EXTENDS TempNet, Json
CONSTANTS Nodes, Ticks, MaxEv, EmitHist
VARIABLES hist, phase, k, ongoing
vars == <<hist, phase, k, ongoing>>
(* A pair of nodes in a fixed orientation or, for the later event of a pair, reversed *)
Events == {<<i, j, a, b>> : i \in Nodes, j \in Nodes, a \in Ticks, b \in Ticks}
Canon(h, e) == /\ Src(e) # Tgt(e) /\ Sta(e) < End(e)
               /\ (h = <<>> => Src(e) < Tgt(e))
               /\ (Len(h) > 0 => LET p == h[Len(h)] IN
                     \/ Sta(p) < Sta(e)
                     \/ Sta(p) = Sta(e) /\ End(p) <= End(e))
Used(h) == UNION {Pair(h[x]) : x \in 1..Len(h)}
Init == hist = <<>> /\ phase = "build" /\ k = 0 /\ ongoing = <<>>
Add == /\ phase = "build" /\ Len(hist) < MaxEv
       /\ \E e \in Events : Canon(hist, e) /\ hist' = Append(hist, e)
       /\ UNCHANGED <<phase, k, ongoing>>
Ts == TimeSeq(hist)
(* a sweep starting at grid point k0: events that were ongoing just before *)
Begin == /\ phase = "build" /\ hist # <<>>
         /\ phase' = "sweep"
         /\ \E k0 \in 1..(Len(Ts) - 1) :
              /\ k' = k0
              /\ ongoing' = [p \in PairsOf(hist) |->
                   Cardinality({x \in 1..Len(hist) : Pair(hist[x]) = p
                      /\ Sta(hist[x]) <= Ts[k0] /\ End(hist[x]) > Ts[k0]})]
         /\ UNCHANGED hist
         /\ (EmitHist => PrintT(<<"H", ToJson(hist)>>))
Delta(p, t) == Cardinality({x \in 1..Len(hist) : Pair(hist[x]) = p /\ Sta(hist[x]) = t})
               - Cardinality({x \in 1..Len(hist) : Pair(hist[x]) = p /\ End(hist[x]) = t})
Step == /\ phase = "sweep" /\ k < Len(Ts)
        /\ k' = k + 1
        /\ ongoing' = [p \in PairsOf(hist) |-> ongoing[p] + Delta(p, Ts[k + 1])]
        /\ UNCHANGED <<hist, phase>>
Next == Add \/ Begin \/ Step

SweepAgrees == phase = "sweep" => {p \in PairsOf(hist) : ongoing[p] > 0} = ActiveAt(hist, Ts[k])
NeverNegative == phase = "sweep" => \A p \in PairsOf(hist) : ongoing[p] >= 0
AllEnded == phase = "sweep" /\ k = Len(Ts) => ActiveAt(hist, Ts[k]) = {}
(* contacts are constant between consecutive times of the grid *)
PiecewiseConstant == phase = "sweep" /\ k < Len(Ts) =>
   \A t \in Ticks : Ts[k] <= t /\ t < Ts[k + 1] => ActiveAt(hist, t) = ActiveAt(hist, Ts[k])
(* merging keeps the contacts at every time, and merged intervals never overlap *)
MergeSound == phase = "build" => \A p \in PairsOf(hist) :
   LET m == MergedIntervals(hist, p)
   IN  /\ \A t \in Ticks : (\E x \in 1..Len(m) : m[x][1] <= t /\ t < m[x][2]) <=> p \in ActiveAt(hist, t)
       /\ \A x \in 1..(Len(m) - 1) : m[x][2] <= m[x + 1][1]
       /\ MergeRun([x \in 1..Len(m) |-> <<0, 0, m[x][1], m[x][2]>>], <<>>) = m
RelabelSound == phase = "build" /\ hist # <<>> =>
   LET r == Relabel(hist)
   IN  /\ Labels(r) = 0..(NumNodes(hist) - 1)
       /\ \A x, y \in 1..Len(hist) : (Src(hist[x]) < Src(hist[y])) <=> (Src(r[x]) < Src(r[y]))
SnapSound == phase = "build" /\ hist # <<>> => \A t \in Ticks :
   LET s == Snap(Ts, t) IN (t >= Ts[1] => Ts[s] <= t) /\ \A x \in (s + 1)..Len(Ts) : Ts[x] > t
=============================================================================
