------------------------------ MODULE J_Static ------------------------------
EXTENDS StaticWalk, JudgeBase, FiniteSetsExt, SequencesExt
BlockR(S, A, B) == RSum([x \in 1..(Len(A) * Len(B)) |->
                      S[A[((x - 1) \div Len(B)) + 1] + 1][B[((x - 1) % Len(B)) + 1] + 1]])
QualityR(S, cl) == RSum([c \in 1..Len(cl) |-> BlockR(S, cl[c], cl[c])])
IsPart(cl, n) == /\ UNION {ToSet(cl[x]) : x \in 1..Len(cl)} = 0..(n - 1)
                 /\ MapThenSumSet(LAMBDA x : Len(cl[x]), 1..Len(cl)) = n
                 /\ \A x \in 1..Len(cl) : cl[x] # <<>>
SameGroups(a, b) == {ToSet(a[x]) : x \in 1..Len(a)} = {ToSet(b[x]) : x \in 1..Len(b)}
VStaticWalk(r) ==
  IF r.raised # "" THEN "raised_" \o r.raised
  ELSE LET W == TLCEval(Walk(r.A))
           n == Len(W)
           T == TLCEval(AtTime(W, r.mode, r.t, r.tn))
           S == TLCEval(Covariance(T, IF r.directed THEN r.p1 ELSE DegShare(r.A)))
       IN  IF r.directed /\ ~IsStationary(r.p1, W, 7) THEN "stationary_distribution"
           ELSE IF ~r.directed /\ ~VNear(r.p1, DegShare(r.A), 12) THEN "share_of_the_degree"
           ELSE IF ~VNear(r.p1, r.p2, 14) THEN "same_distribution_at_both_ends"
           ELSE IF ~MNear(r.T, T, 8) THEN "walk_at_the_given_time"
           ELSE IF r.hasS /\ ~MNear(r.S, S, 8) THEN "covariance"
           ELSE IF ~RNear(r.stab0, QualityR(S, [i \in 1..n |-> <<i - 1>>]), 8) THEN "quality_of_single_nodes"
           ELSE IF ~r.inputKept THEN "input_left_unchanged"
           ELSE IF ~IsPart(r.part, n) THEN "result_is_a_partition"
           ELSE IF ~RNear(r.stab, QualityR(S, r.part), 8) THEN "quality_of_the_result"
           ELSE IF r.found /\ RLt(r.stab, RSub(r.stab0, RPow10(-7))) THEN "result_is_not_worse"
           ELSE IF ~(r.directed /\ r.form = "csr") /\ ~SameGroups(r.part, r.again) THEN "same_seed_same_result"
           ELSE "ok"
(* invalid inputs are refused *)
VRefused(r) == IF r.raised = r.expect THEN "ok" ELSE "refused_with_" \o r.expect
=============================================================================
