---------------------------- MODULE MC_StarWalk ----------------------------
(* The closed form against the series, for stars and times; probabilities that *)
(* compose (Chapman-Kolmogorov).                                               *)
EXTENDS StarWalk
CONSTANTS MaxLeaves
VARIABLES m, t, u
Times == {RFrac(1, 8), RFrac(1, 2), R1, RInt(3), RInt(8)}
Init == m \in 1..MaxLeaves /\ t \in Times /\ u \in Times
Next == FALSE /\ UNCHANGED <<m, t, u>>
ClosedForm == MNear(Expm(MScale(RNeg(t), StarLap(m))), StarExp(t, m), 11)
Probabilities == Stochastic(StarExp(t, m), 12)
Compose == MNear(MMul(StarExp(t, m), StarExp(u, m)), StarExp(RAdd(t, u), m), 12)
=============================================================================
