---------------------------- MODULE MC_SparseMat ----------------------------
EXTENDS SparseMat
CONSTANTS N, MaxNz, Entries, Diags
VARIABLES A, B
Reps == UNION {{[nz |-> S, d |-> d, sm |-> f] : d \in Diags, f \in [S \X S -> Entries]}
               : S \in {T \in SUBSET (1..N) : Cardinality(T) <= MaxNz}}
Init == A \in Reps /\ B \in Reps
Next == UNCHANGED <<A, B>>
FA == Full(A, N)   FB == Full(B, N)
RECURSIVE DotTo(_, _, _)
DotTo(i, j, k) == IF k = 0 THEN 0 ELSE FA[i][k] * FB[k][j] + DotTo(i, j, k - 1)
Commutes ==
  /\ Full(RepAdd(A, B), N) = [i \in 1..N |-> [j \in 1..N |-> FA[i][j] + FB[i][j]]]
  /\ Full(RepSub(A, B), N) = [i \in 1..N |-> [j \in 1..N |-> FA[i][j] - FB[i][j]]]
  /\ Full(RepMul(A, B), N) = [i \in 1..N |-> [j \in 1..N |-> DotTo(i, j, N)]]
  /\ Full(RepScale(3, A), N) = [i \in 1..N |-> [j \in 1..N |-> 3 * FA[i][j]]]
  /\ Full(RepTrans(A), N) = [i \in 1..N |-> [j \in 1..N |-> FA[j][i]]]
  /\ Full(RepAddDiag(A, 2), N) = [i \in 1..N |-> [j \in 1..N |-> FA[i][j] + (IF i = j THEN 2 ELSE 0)]]
  /\ Full(FromFull(FA, N, B.d), N) = FA
=============================================================================
