--------------------------- MODULE MC_StaticWalk ---------------------------
(* All small weighted networks: the share of the degree is stationary, the     *)
(* covariance is symmetric with rows that cancel, walks compose over time, and *)
(* the three kinds of time agree where they must.                              *)
EXTENDS StaticWalk
CONSTANTS N, MaxW, Und
VARIABLES w, t
Nodes == 1..N
Slots == {p \in Nodes \X Nodes : IF Und THEN p[1] <= p[2] ELSE TRUE}
A == [i \in Nodes |-> [j \in Nodes |-> RInt(IF Und /\ i > j THEN w[<<j, i>>] ELSE w[<<i, j>>])]]
Init == w \in {x \in [Slots -> 0..MaxW] : \E s \in Slots : x[s] > 0} /\ t \in {0, 1, 2, 3}
Next == FALSE /\ UNCHANGED <<w, t>>
W == Walk(A)
pi == DegShare(A)
T(mode) == AtTime(W, mode, RInt(t), t)
Stationary == Und => IsStationary(pi, W, 12)
Stochastics == Stochastic(W, 12) /\ Stochastic(T("discrete"), 12) /\ Stochastic(T("exp"), 10)
Reversible == Und => \A m \in {"discrete", "linear", "exp"} :
   LET S == Covariance(T(m), pi) IN MNear(S, Transp(S), 10) /\ \A i \in Nodes : RNear(RSum(S[i]), R0, 10)
Composes == MNear(MMul(T("exp"), AtTime(W, "exp", R1, 1)), AtTime(W, "exp", RInt(t + 1), t + 1), 10)
            /\ MNear(MMul(T("discrete"), W), AtTime(W, "discrete", RInt(t + 1), t + 1), 12)
Agree == /\ (t <= 1 => MNear(T("linear"), T("discrete"), 12))
         /\ (t = 0 => MNear(T("exp"), Ident(N), 12))
=============================================================================
