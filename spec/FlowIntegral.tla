---------------------------- MODULE FlowIntegral ----------------------------
(* Flow integrals: the covariance between where walkers started, averaged over *)
(* the time they travel.  A journey is a sequence of steps (transition         *)
(* matrices, in the order of travel) and the times between which they happen.  *)
EXTENDS LinAlg, FiniteSetsExt

InvOr1(v) == [i \in 1..Len(v) |-> IF REq(v[i], R0) THEN R1 ELSE RDiv(R1, v[i])]
(* how likely two walkers, started at i and j, are where the other one may be  *)
Meet(T, p1) == TLCEval(MMul(DiagR(T, InvOr1(VMat(p1, T))), Transp(T)))
RECURSIVE CumProd(_, _, _)
CumProd(ms, k, acc) == IF k > Len(ms) THEN acc
                       ELSE CumProd(ms, k + 1, Append(acc, TLCEval(MMul(acc[Len(acc)], ms[k]))))
Travelled(steps) == CumProd(steps, 2, <<steps[1]>>)

(* ---- the integral as it is accumulated: one step after the other ---- *)
Start(n) == [acc |-> ZeroM(n), total |-> R0]
Advance(s, T, dt, p1) == [acc |-> TLCEval(MAdd(s.acc, MScale(dt, Meet(T, p1)))), total |-> RAdd(s.total, dt)]
Read(s, p1) == MSub(DiagR(DiagL(p1, MScale(RDiv(R1, s.total), s.acc)), p1), Outer(p1, p1))
RECURSIVE Accum(_, _, _, _, _)
Accum(Ts, dts, p1, k, s) == IF k = 0 THEN s ELSE Advance(Accum(Ts, dts, p1, k - 1, s), Ts[k], dts[k], p1)

(* ---- the integral as it is meant ---- *)
(* the average of the covariance of the start, p1_i p1_j (sum_l T_il T_jl / p_l - 1) *)
CovAt(T, p1, i, j) == LET q == InvOr1(VMat(p1, T))
                      IN  RSub(RMul(RMul(p1[i], p1[j]), RSum([l \in 1..Len(p1) |-> RMul(RMul(T[i][l], T[j][l]), q[l])])),
                               RMul(p1[i], p1[j]))
Meant(Ts, dts, p1, k) ==
  LET total == RSum([x \in 1..k |-> dts[x]])
  IN  [i \in 1..Len(p1) |-> [j \in 1..Len(p1) |->
          RDiv(RSum([x \in 1..k |-> RMul(dts[x], CovAt(Ts[x], p1, i, j))]), total)]]

(* ---- the times until which integrals are asked for ---- *)
(* ts: times in the order of travel.  A requested time stands for the last time *)
(* of the journey that is not beyond it.                                       *)
NotBeyond(t, x, back) == IF back THEN RLeq(x, t) ELSE RLeq(t, x)
GridK(ts, x, back) == LET S == {k \in 1..Len(ts) : NotBeyond(ts[k], x, back)}
                      IN  IF S = {} THEN 1 ELSE Max(S)
Ends(ts, grid, back) == {GridK(ts, grid[g], back) : g \in 1..Len(grid)} \ {1}
=============================================================================
