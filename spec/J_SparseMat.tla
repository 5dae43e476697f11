---------------------------- MODULE J_SparseMat ----------------------------
(* Chains of operations on sparse stochastic matrices, judged on the full      *)
(* matrices that they stand for.                                               *)
EXTENDS LinAlg, JudgeBase

ToSet(s) == {s[k] : k \in 1..Len(s)}
FullOf(x, n) ==       \* x.nz: 0-based nodes in increasing order, x.sm: small matrix
  LET pos == [i \in 0..(n - 1) |-> Cardinality({m \in ToSet(x.nz) : m <= i})]
      in == [i \in 0..(n - 1) |-> i \in ToSet(x.nz)]
  IN  [i \in 1..n |-> [j \in 1..n |->
        IF in[i - 1] /\ in[j - 1] THEN x.sm[pos[i - 1]][pos[j - 1]]
        ELSE IF i = j THEN x.d ELSE R0]]
DiagM(n, x) == MScale(x, Ident(n))
ScaleTo(row, s) == LET t == RSum(row) IN [j \in 1..Len(row) |-> RMul(row[j], RDiv(s, t))]
(* rows with a sum this small are out of scope for normalization *)
Normalizable(M) == \A i \in 1..Len(M) : RLt(RPow10(-3), RAbs(RSum(M[i])))
Binary == {"add", "sub", "mul", "addcsr", "addarr", "raddcsr", "raddarr", "subcsr", "subarr", "rsubcsr", "rsubarr",
           "mulcsr", "mularr", "rmulcsr", "rmularr"}
InPlace == {"norm", "zero"}
InScope(o, S) == o.op = "norm" => Normalizable(S[o.i])
Result(o, S, n) ==
  CASE o.op \in {"add", "addcsr", "addarr", "raddcsr", "raddarr"} -> MAdd(S[o.i], S[o.j])
    [] o.op \in {"sub", "subcsr", "subarr"} -> MSub(S[o.i], S[o.j])
    [] o.op \in {"rsubcsr", "rsubarr"} -> MSub(S[o.j], S[o.i])
    [] o.op \in {"mul", "mulcsr", "mularr"} -> MMul(S[o.i], S[o.j])
    [] o.op \in {"rmulcsr", "rmularr"} -> MMul(S[o.j], S[o.i])
    [] o.op \in {"scale", "rscale"} -> MScale(o.x, S[o.i])
    [] o.op = "transpose" -> Transp(S[o.i])
    [] o.op = "subdiag" -> MSub(S[o.i], DiagM(n, o.x))
    [] o.op = "adddiag" -> MAdd(S[o.i], DiagM(n, o.x))
    [] o.op \in {"copy", "dict", "fromfull", "pickle", "zero"} -> S[o.i]
    [] o.op = "norm" -> [i \in 1..n |-> ScaleTo(S[o.i][i], o.x)]
MaxAbs(M) == LET rows == [i \in 1..Len(M) |-> SeqMax([j \in 1..Len(M[i]) |-> RAbs(M[i][j])], R0)]
             IN  SeqMax(rows, R0)
OffDiag(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> IF i = j THEN R0 ELSE M[i][j]]]
(* rounding removes the entries of at most the tolerance and no others; a      *)
(* relative tolerance is a fraction of the largest entry in size.  The largest *)
(* of the stored entries is somewhere between that of the entries off the      *)
(* diagonal and that of all entries; diagonals need not be stored.             *)
Rounded(X, M, tol, rel) ==
  LET lo == RMul(IF rel THEN RMul(tol, MaxAbs(OffDiag(M))) ELSE tol, RSub(R1, RPow10(-9)))
      hi == RMul(IF rel THEN RMul(tol, MaxAbs(M)) ELSE tol, RAdd(R1, RPow10(-9)))
  IN  \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) :
         LET x == X[i][j]  m == M[i][j]
         IN  /\ x = m \/ RNear(x, m, 15) \/ (RLeq(RAbs(m), hi) /\ RLeq(RAbs(x), R0))
             /\ i # j /\ RLt(RAbs(m), lo) => RLeq(RAbs(x), R0)
             /\ RLt(hi, RAbs(m)) => RLt(R0, RAbs(x))
(* products are split around the diagonal: rounding errors scale with the      *)
(* operands, not with the entry                                                *)
Size(o, S) == RMul(RAdd(R1, MaxAbs(S[o.i])), IF o.op \in Binary THEN RAdd(R1, MaxAbs(S[o.j])) ELSE R1)
Within(X, Y, size) ==
  LET lim == RMul(size, RPow10(-11))
  IN  /\ Len(X) = Len(Y)
      /\ \A i \in 1..Len(X) : Len(X[i]) = Len(Y[i]) /\ \A j \in 1..Len(X[i]) : RLeq(RAbs(RSub(X[i][j], Y[i][j])), lim)
Dest(o) == IF o.op \in InPlace THEN o.i ELSE o.k
StepClause(o, S, b, n) ==       \* S: before, b: observation after the operation
  IF b.raised # "" THEN "raised_" \o b.raised
  ELSE IF \E k \in 1..Len(S) : k # Dest(o) /\ ~MNear(b.regs[k], S[k], 13) THEN "other_matrices_are_unchanged_by_" \o o.op
  ELSE IF b.shared[3] # Cardinality(ToSet(b.shared[1]) \cap ToSet(b.shared[2])) THEN "number_of_common_nodes"
  ELSE IF o.op = "zero" THEN (IF Rounded(b.regs[o.i], S[o.i], o.tol, o.rel) THEN "ok" ELSE "value_of_zero")
  ELSE IF InScope(o, S) /\ ~Within(b.regs[Dest(o)], Result(o, S, n), Size(o, S)) THEN "value_of_" \o o.op
  ELSE "ok"
RECURSIVE Follow(_, _, _)
Follow(r, k, S) == IF k > Len(r.ops) THEN "ok"
   ELSE LET c == StepClause(r.ops[k], S, r.obs[k], r.n)
        IN  IF c # "ok" THEN c ELSE Follow(r, k + 1, r.obs[k].regs)
VChain(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET S == [k \in 1..Len(r.init) |-> FullOf(r.init[k], r.n)]
       IN  IF \E k \in 1..Len(S) : ~MNear(r.start[k], S[k], 13) THEN "full_matrix"
           ELSE Follow(r, 1, r.start)

(* ---- helpers on csr / csc matrices ---- *)
VHelper(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE IF r.op = "zero"       \* here every entry is stored
       THEN LET lim == RMul(IF r.rel THEN RMul(r.tol, MaxAbs(r.A)) ELSE r.tol, R1)
                Want(x) == IF RLeq(RAbs(x), RMul(lim, RSub(R1, RPow10(-9)))) THEN {R0}
                           ELSE IF RLt(RMul(lim, RAdd(R1, RPow10(-9))), RAbs(x)) THEN {x} ELSE {R0, x}
            IN  IF \A i \in 1..Len(r.A) : \A j \in 1..Len(r.A[i]) : \E w \in Want(r.A[i][j]) :
                      RNear(r.res[i][j], w, 15) /\ (REq(w, R0) <=> REq(r.res[i][j], R0))
                THEN "ok" ELSE "value_of_zero"
  ELSE IF "kept" \in DOMAIN r /\ ~r.kept THEN "input_left_unchanged"
  ELSE IF r.op = "remove"
       THEN LET n == Len(r.A)
                nz == SelectSeq([i \in 1..n |-> i], LAMBDA i : \E j \in 1..n : ~REq(r.A[i][j], R0) \/ ~REq(r.A[j][i], R0))
            IN  IF r.size # n \/ r.nz # [a \in 1..Len(nz) |-> nz[a] - 1] THEN "nodes_of_the_matrix"
                ELSE IF nz # <<>> /\ ~MNear(r.res, [a \in 1..Len(nz) |-> [b \in 1..Len(nz) |-> r.A[nz[a]][nz[b]]]], 15)
                THEN "value_of_remove" ELSE "ok"
  ELSE LET W == CASE r.op = "ones" -> [i \in 1..Len(r.A) |-> [j \in 1..Len(r.A[i]) |->
                        IF RLeq(RAbs(RSub(r.A[i][j], R1)), r.tol) THEN R1 ELSE r.A[i][j]]]
                  [] r.op = "normcsc" -> [i \in 1..Len(r.A) |->
                        IF RLeq(RAbs(RSum(r.A[i])), RPow10(-12)) THEN r.A[i] ELSE ScaleTo(r.A[i], R1)]
                  [] r.op \in {"rebuild", "rebuild_without"} -> FullOf([nz |-> r.nz, sm |-> r.A, d |-> r.d], r.n)
                  [] r.op = "outer" -> Outer(r.v, r.v)
                  [] r.op = "outer_triu" -> LET O == Outer(r.v, r.v) IN
                        [i \in 1..Len(O) |-> [j \in 1..Len(O) |-> IF j >= i THEN O[i][j] ELSE R0]]
                  [] r.op = "matmul" -> MMul(r.A, r.B)
                  [] r.op = "gram" -> LET G == IF r.tr THEN MMul(r.A, Transp(r.A)) ELSE MMul(Transp(r.A), r.A) IN
                        IF r.upper THEN [i \in 1..Len(G) |-> [j \in 1..Len(G) |-> IF j >= i THEN G[i][j] ELSE R0]] ELSE G
                  [] r.op = "matmul_diag" -> DiagR(r.A, r.v)
                  [] r.op = "diag_matmul" -> DiagL(r.v, r.A)
                  [] r.op = "normalize" -> [i \in 1..Len(r.A) |->
                        LET s == RSum(r.A[i]) IN
                        IF RLeq(RAbs(s), RPow10(-12)) THEN r.A[i]
                        ELSE IF REq(r.v[i], R0)
                             THEN LET nnz == Cardinality({j \in 1..Len(r.A[i]) : ~REq(r.A[i][j], R0)})
                                      m == RDiv(s, RInt(nnz))
                                  IN  [j \in 1..Len(r.A[i]) |-> IF REq(r.A[i][j], R0) THEN R0 ELSE RSub(r.A[i][j], m)]
                             ELSE ScaleTo(r.A[i], r.v[i])]
       IN  IF ~MNear(r.res, W, IF r.op = "ones" THEN 15 ELSE 10) THEN "value_of_" \o r.op
           ELSE "ok"
=============================================================================
