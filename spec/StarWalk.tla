------------------------------ MODULE StarWalk ------------------------------
(* The random walk on a star with m leaves in closed form: a check of the      *)
(* exponential and a reference for networks too large to exponentiate here.    *)
(* x: rate times duration.                                                     *)
EXTENDS LinAlg
Cosh(x) == RDiv(RAdd(RExp(x), RExp(RNeg(x))), RInt(2))
Sinh(x) == RDiv(RSub(RExp(x), RExp(RNeg(x))), RInt(2))
Frac(x, m) == RDiv(x, RInt(m))
HubHub(x, m)  == RMul(RExp(RNeg(x)), Cosh(x))
HubLeaf(x, m) == RMul(RExp(RNeg(x)), Frac(Sinh(x), m))
LeafHub(x, m) == RMul(RExp(RNeg(x)), Sinh(x))
LeafSelf(x, m) == RMul(RExp(RNeg(x)), RAdd(R1, Frac(RSub(Cosh(x), R1), m)))
LeafLeaf(x, m) == RMul(RExp(RNeg(x)), Frac(RSub(Cosh(x), R1), m))
StarExp(x, m) == [i \in 1..(m + 1) |-> [j \in 1..(m + 1) |->
   IF i = 1 THEN (IF j = 1 THEN HubHub(x, m) ELSE HubLeaf(x, m))
   ELSE IF j = 1 THEN LeafHub(x, m) ELSE IF i = j THEN LeafSelf(x, m) ELSE LeafLeaf(x, m)]]
StarWalkM(m) == [i \in 1..(m + 1) |-> [j \in 1..(m + 1) |->
   IF i = 1 THEN (IF j = 1 THEN R0 ELSE RFrac(1, m)) ELSE IF j = 1 THEN R1 ELSE R0]]
StarLap(m) == MSub(Ident(m + 1), StarWalkM(m))
=============================================================================
