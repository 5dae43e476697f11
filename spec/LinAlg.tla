------------------------------- MODULE LinAlg -------------------------------
(* Dense linear algebra over RealNum: vectors and matrices are sequences, so   *)
(* index 1 is node 0 of the implementation.                                    *)
EXTENDS RealNum, FiniteSets, TLC

Dim(A) == Len(A)
Row(A, i) == A[i]
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
Transp(A) == IF A = <<>> THEN <<>> ELSE [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]]
ZeroM(n) == [i \in 1..n |-> [j \in 1..n |-> R0]]
MAdd(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RSub(A[i][j], B[i][j])]]
MScale(x, A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RMul(x, A[i][j])]]
MMul(A, B) == LET Bt == Transp(B)
              IN  [i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> RDot(A[i], Bt[j])]]
VMat(x, A) == LET At == Transp(A) IN [j \in 1..Len(At) |-> RDot(x, At[j])]
MVec(A, x) == [i \in 1..Len(A) |-> RDot(A[i], x)]
DiagL(x, A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RMul(x[i], A[i][j])]]
DiagR(A, x) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RMul(A[i][j], x[j])]]
Outer(x, y) == [i \in 1..Len(x) |-> [j \in 1..Len(y) |-> RMul(x[i], y[j])]]
RowSum(A, i) == RSum(A[i])
VNear(x, y, k) == /\ Len(x) = Len(y)
                  /\ \A i \in 1..Len(x) : RNear(x[i], y[i], k)
MNear(A, B, k) == /\ Len(A) = Len(B)
                  /\ \A i \in 1..Len(A) : VNear(A[i], B[i], k)
MFinite(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : IsFin(A[i][j])
Stochastic(A, k) == \A i \in 1..Len(A) :
                      /\ RNear(RSum(A[i]), R1, k)
                      /\ \A j \in 1..Len(A[i]) : RLeq(RNeg(RPow10(-k)), A[i][j])
NormRows(A) == [i \in 1..Len(A) |->
                  LET s == RSum(A[i])
                  IN  IF REq(s, R0) THEN A[i]
                      ELSE [j \in 1..Len(A[i]) |-> RDiv(A[i][j], s)]]

(* Matrix exponential by scaling (2^-s) and squaring with a Taylor series.     *)
RECURSIVE TaylorSum(_, _, _, _, _)
TaylorSum(A, term, acc, k, kmax) ==
  IF k > kmax THEN acc
  ELSE LET t == TLCEval(MScale(RDiv(R1, RInt(k)), MMul(term, A)))
       IN  TaylorSum(A, t, TLCEval(MAdd(acc, t)), k + 1, kmax)
RECURSIVE SquareN(_, _)
SquareN(A, s) == IF s = 0 THEN A ELSE SquareN(TLCEval(MMul(A, A)), s - 1)
RECURSIVE NumHalvings(_, _)
NumHalvings(x, s) == IF RLeq(x, RFrac(1, 2)) THEN s ELSE NumHalvings(RDiv(x, RInt(2)), s + 1)
RECURSIVE SeqMax(_, _)
SeqMax(s, m) == IF s = <<>> THEN m ELSE SeqMax(Tail(s), RMax(Head(s), m))
NormInf(A) == SeqMax([i \in 1..Len(A) |-> RSum([j \in 1..Len(A[i]) |-> RAbs(A[i][j])])], R0)
RECURSIVE PowHalf(_)
PowHalf(s) == IF s = 0 THEN R1 ELSE RDiv(PowHalf(s - 1), RInt(2))
Expm(A) == LET s == NumHalvings(NormInf(A), 0)
               B == TLCEval(MScale(PowHalf(s), A))
               I == Ident(Len(A))
           IN  SquareN(TaylorSum(B, I, I, 1, 16), s)
RECURSIVE MProd(_, _)
MProd(seq, acc) == IF seq = <<>> THEN acc ELSE MProd(Tail(seq), TLCEval(MMul(acc, Head(seq))))
=============================================================================
