----------------------------- MODULE SparseMat -----------------------------
(* Sparse stochastic matrices.  A representation is a small matrix on the      *)
(* nodes nz and a value d on the diagonal of all other nodes; its meaning is   *)
(* the full matrix.  The operations on representations (union of the nodes,    *)
(* products split around the diagonal) are transcribed here over the integers; *)
(* MC_SparseMat checks that they commute with the meaning.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Full(A, n) == [i \in 1..n |-> [j \in 1..n |->
                 IF i \in A.nz /\ j \in A.nz THEN A.sm[<<i, j>>]
                 ELSE IF i = j THEN A.d ELSE 0]]
(* entry of the representation, seen from a larger set of nodes *)
At(A, i, j) == IF i \in A.nz /\ j \in A.nz THEN A.sm[<<i, j>>] ELSE IF i = j THEN A.d ELSE 0
Mk(nz, d, F(_, _)) == [nz |-> nz, d |-> d, sm |-> [p \in nz \X nz |-> F(p[1], p[2])]]
RepAdd(A, B) == Mk(A.nz \cup B.nz, A.d + B.d, LAMBDA i, j : At(A, i, j) + At(B, i, j))
RepSub(A, B) == Mk(A.nz \cup B.nz, A.d - B.d, LAMBDA i, j : At(A, i, j) - At(B, i, j))
RepScale(x, A) == Mk(A.nz, x * A.d, LAMBDA i, j : x * A.sm[<<i, j>>])
RepTrans(A) == Mk(A.nz, A.d, LAMBDA i, j : A.sm[<<j, i>>])
RepAddDiag(A, x) == Mk(A.nz, A.d + x, LAMBDA i, j : A.sm[<<i, j>>] + (IF i = j THEN x ELSE 0))
(* A B = (A - aI)(B - bI) + bA + aB - abI; the product lives on the nodes of   *)
(* both, and is zero when they have none in common                             *)
RECURSIVE SumOver(_, _, _, _, _)
SumOver(A, B, i, j, S) == IF S = {} THEN 0
   ELSE LET k == CHOOSE x \in S : TRUE
            a == A.sm[<<i, k>>] - (IF i = k THEN A.d ELSE 0)
            b == B.sm[<<k, j>>] - (IF k = j THEN B.d ELSE 0)
        IN  a * b + SumOver(A, B, i, j, S \ {k})
RepMul(A, B) ==
  LET I == A.nz \cap B.nz
      lin == RepAddDiag(RepAdd(RepScale(B.d, A), RepScale(A.d, B)), - A.d * B.d)
      prod == Mk(A.nz \cup B.nz, 0, LAMBDA i, j :
                 IF i \in A.nz /\ j \in B.nz THEN SumOver(A, B, i, j, I) ELSE 0)
  IN  IF I = {} THEN lin ELSE RepAdd(prod, lin)
(* the nodes that differ from d times the identity *)
FromFull(M, n, d) ==
  LET nz == {i \in 1..n : \E j \in 1..n : M[i][j] # (IF i = j THEN d ELSE 0) \/ M[j][i] # (IF i = j THEN d ELSE 0)}
  IN  Mk(nz, d, LAMBDA i, j : M[i][j])
=============================================================================
