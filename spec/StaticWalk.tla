----------------------------- MODULE StaticWalk -----------------------------
(* The random walk on a static network and its covariance at a time t.         *)
(* A: adjacency matrix with nonnegative weights (reals).                       *)
EXTENDS LinAlg
Deg(A) == [i \in 1..Len(A) |-> RSum(A[i])]
(* a node without (outgoing) weight keeps its walkers *)
Walk(A) == LET d == Deg(A)
           IN  [i \in 1..Len(A) |-> [j \in 1..Len(A) |->
                  IF REq(d[i], R0) THEN (IF i = j THEN R1 ELSE R0) ELSE RDiv(A[i][j], d[i])]]
DegShare(A) == LET d == Deg(A) IN [i \in 1..Len(A) |-> RDiv(d[i], RSum(d))]
RECURSIVE MPow(_, _)
MPow(W, t) == IF t = 0 THEN Ident(Len(W))
              ELSE IF t % 2 = 1 THEN TLCEval(MMul(W, MPow(W, t - 1)))
              ELSE LET H == TLCEval(MPow(W, t \div 2)) IN TLCEval(MMul(H, H))
AtTime(W, mode, t, tn) ==      \* t as a real, tn as a natural number (discrete)
  CASE mode = "discrete" -> MPow(W, tn)
    [] mode = "linear"   -> MAdd(MScale(RSub(R1, t), Ident(Len(W))), MScale(t, W))
    [] mode = "exp"      -> Expm(MScale(t, MSub(W, Ident(Len(W)))))
Covariance(T, p) == MSub(DiagL(p, T), Outer(p, p))
IsStationary(p, W, k) == /\ VNear(VMat(p, W), p, k) /\ RNear(RSum(p), R1, k)
                         /\ \A i \in 1..Len(p) : RLeq(RNeg(RPow10(-k)), p[i])
=============================================================================
