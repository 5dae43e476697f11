------------------------------- MODULE J_Flow -------------------------------
(* Judges flow integrals and their clusterings.                                *)
EXTENDS FlowIntegral, JudgeBase, SequencesExt

BlockR(S, A, B) == RSum([x \in 1..(Len(A) * Len(B)) |->
                      S[A[((x - 1) \div Len(B)) + 1] + 1][B[((x - 1) % Len(B)) + 1] + 1]])
QualityR(S, cl) == RSum([c \in 1..Len(cl) |-> BlockR(S, cl[c], cl[c])])
IsPart(cl, n) == /\ UNION {ToSet(cl[x]) : x \in 1..Len(cl)} = 0..(n - 1)
                 /\ MapThenSumSet(LAMBDA x : Len(cl[x]), 1..Len(cl)) = n
                 /\ \A x \in 1..Len(cl) : cl[x] # <<>>
SameGroups(a, b) == {ToSet(a[x]) : x \in 1..Len(a)} = {ToSet(b[x]) : x \in 1..Len(b)}

(* r.steps: step matrices in the order of time, or (r.given = "cum") the       *)
(* cumulative ones in the order of travel; r.times in the order of time        *)
P1(r) == IF r.hasP1 THEN r.p1 ELSE [i \in 1..r.n |-> RFrac(1, r.n)]
Ts(r) == IF r.given = "cum" THEN r.steps
         ELSE Travelled(IF r.reverse THEN Reverse(r.steps) ELSE r.steps)
TimesOf(r) == LET t == IF r.hasTimes THEN r.times ELSE [k \in 1..(Len(r.steps) + 1) |-> RInt(k - 1)]
              IN  IF r.reverse THEN Reverse(t) ELSE t
Wanted(r) ==
  LET ts == TimesOf(r)
      T == Ts(r)
      dts == [k \in 1..Len(T) |-> RAbs(RSub(ts[k + 1], ts[k]))]
      ends == IF r.hasGrid THEN SetToSortSeq(Ends(ts, r.grid, r.reverse), <) ELSE <<Len(ts)>>
      RECURSIVE Go(_, _, _)
      Go(k, s, acc) == IF k > Len(T) THEN acc
                       ELSE LET s1 == Advance(s, T[k], dts[k], P1(r))
                            IN  Go(k + 1, s1, IF \E e \in 1..Len(ends) : ends[e] = k + 1
                                              THEN Append(acc, TLCEval(Read(s1, P1(r)))) ELSE acc)
  IN  Go(1, Start(r.n), <<>>)

ClusClause(r, I, o) ==
  LET sing == [i \in 1..r.n |-> <<i - 1>>]
      start == IF o.start = <<>> THEN sing ELSE o.start
      eps == RPow10(-6)
      (* integrals this small may be taken for zero: everything is one cluster *)
      zero == \A i, j \in 1..r.n : RLt(RAbs(I[i][j]), RPow10(-5))
  IN  IF o.raised # "" THEN "raised_" \o o.raised
      ELSE IF ~IsPart(o.part, r.n) THEN "clustering_is_a_partition"
      ELSE IF ~RNear(o.stab, QualityR(I, o.part), r.digits) THEN "quality_of_the_integral"
      ELSE IF ~zero /\ RLt(QualityR(I, o.part), RSub(QualityR(I, start), eps)) THEN "clustering_improves_the_start"
      ELSE IF ~SameGroups(o.part, o.again) THEN "clustering_of_this_integral"
      ELSE IF ~SameGroups(o.part, o.kept) THEN "computed_once"
      ELSE "ok"
VIntegral(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET W == TLCEval(Wanted(r))
       IN  IF Len(r.I) # Len(W) THEN "integrals_for_the_requested_times"
           ELSE IF \E k \in 1..Len(W) : ~MNear(r.I[k], W[k], r.digits) THEN "integral"
           ELSE IF \E k \in 1..Len(W) : ~MNear(r.I[k], Transp(r.I[k]), 12) THEN "symmetric"
           ELSE IF \E k \in 1..Len(W), i \in 1..r.n : ~RNear(RSum(r.I[k][i]), R0, r.digits) THEN "rows_cancel"
           ELSE IF ~r.inputsKept THEN "inputs_left_unchanged"
           ELSE FirstBad(LAMBDA x : ClusClause(r, W[r.clus[x].k + 1], r.clus[x]), 1, Len(r.clus))
=============================================================================
