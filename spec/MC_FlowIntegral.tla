-------------------------- MODULE MC_FlowIntegral --------------------------
(* All short journeys over a catalogue of steps: what is accumulated is what   *)
(* is meant, it is symmetric with rows that sum to zero and a nonnegative      *)
(* diagonal, snapshots never change afterwards, and travelling back is         *)
(* travelling the reversed journey.                                            *)
EXTENDS FlowIntegral, SequencesExt
CONSTANTS MaxLen
VARIABLES p, steps, dts, T, state, snaps
vars == <<p, steps, dts, T, state, snaps>>
H == RFrac(1, 2)
Q(a) == RFrac(a, 4)
Catalogue == << Ident(3),
   << <<R0, R1, R0>>, <<R1, R0, R0>>, <<R0, R0, R1>> >>,
   << <<H, H, R0>>, <<H, H, R0>>, <<R0, R0, R1>> >>,
   << <<R1, R0, R0>>, <<R1, R0, R0>>, <<R0, R0, R1>> >>,
   << <<Q(1), Q(1), H>>, <<H, H, R0>>, <<R0, Q(3), Q(1)>> >> >>
Dists == { <<RFrac(1, 3), RFrac(1, 3), RFrac(1, 3)>>, <<H, Q(1), Q(1)>>, <<R1, R0, R0>>, <<H, H, R0>> }
Init == /\ p \in Dists /\ steps = <<>> /\ dts = <<>> /\ T = Ident(3) /\ state = Start(3) /\ snaps = <<>>
Next == /\ Len(steps) < MaxLen
        /\ \E c \in 1..Len(Catalogue), d \in {1, 3} :
             /\ steps' = Append(steps, c) /\ dts' = Append(dts, RInt(d))
             /\ T' = TLCEval(MMul(T, Catalogue[c]))
             /\ state' = Advance(state, T', RInt(d), p)
             /\ snaps' = Append(snaps, Read(state', p))
        /\ UNCHANGED p
Journey == [k \in 1..Len(steps) |-> Catalogue[steps[k]]]
Now == snaps[Len(snaps)]
AccumulatesTheMeaning == steps # <<>> =>
   /\ \A k \in 1..Len(steps) : MNear(snaps[k], Meant(Travelled(Journey), dts, p, k), 12)
   /\ MNear(T, Travelled(Journey)[Len(steps)], 12)
Symmetric == steps # <<>> => MNear(Now, Transp(Now), 12)
RowsCancel == steps # <<>> => \A i \in 1..3 : RNear(RSum(Now[i]), R0, 12)
NonNegativeDiagonal == steps # <<>> => \A i \in 1..3 : RLeq(RNeg(RPow10(-12)), Now[i][i])
(* a journey without end points in between has the integral of its whole *)
DurationsOnlyWeigh == steps # <<>> =>
   MNear(Now, Read(Accum(Travelled(Journey), [k \in 1..Len(dts) |-> RMul(RInt(7), dts[k])], p, Len(dts), Start(3)), p), 12)
(* grids: travelling back is travelling forward in mirrored time *)
RECURSIVE Times(_, _)
Times(k, acc) == IF k > Len(dts) THEN acc ELSE Times(k + 1, Append(acc, RAdd(acc[k], dts[k])))
Mirror(s) == [k \in 1..Len(s) |-> RNeg(s[k])]
GridMirrors == LET ts == Times(1, <<R0>>)
               IN  \A x \in (-2)..8 : LET h == RFrac(2 * x + 1, 2) IN
                      /\ GridK(ts, h, FALSE) = GridK(Mirror(ts), RNeg(h), TRUE)
                      /\ \A k \in 1..Len(ts) : GridK(ts, ts[k], FALSE) = k
=============================================================================
