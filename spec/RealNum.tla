------------------------------ MODULE RealNum ------------------------------
(* Real numbers.  The scalar operators are overridden by RealNum.java (IEEE    *)
(* doubles); a number is a pair of integers.  The bodies below are placeholders*)
(* that TLC never evaluates.                                                   *)
EXTENDS Integers, Sequences

RAdd(x, y) == CHOOSE z \in {} : TRUE
RSub(x, y) == CHOOSE z \in {} : TRUE
RMul(x, y) == CHOOSE z \in {} : TRUE
RDiv(x, y) == CHOOSE z \in {} : TRUE
RNeg(x)    == CHOOSE z \in {} : TRUE
RAbs(x)    == CHOOSE z \in {} : TRUE
RLn(x)     == CHOOSE z \in {} : TRUE
RExp(x)    == CHOOSE z \in {} : TRUE
RSqrt(x)   == CHOOSE z \in {} : TRUE
RLeq(x, y) == CHOOSE z \in {} : TRUE
RLt(x, y)  == CHOOSE z \in {} : TRUE
REq(x, y)  == CHOOSE z \in {} : TRUE
IsFin(x)   == CHOOSE z \in {} : TRUE
RInt(n)    == CHOOSE z \in {} : TRUE      \* integer -> real
RFrac(n, m) == CHOOSE z \in {} : TRUE     \* n / m
RPow10(n)  == CHOOSE z \in {} : TRUE      \* 10^n
RNear(x, y, k) == CHOOSE z \in {} : TRUE  \* |x-y| <= 10^-k max(1,|x|,|y|)
RShow(x)   == CHOOSE z \in {} : TRUE
RSum(s)    == CHOOSE z \in {} : TRUE      \* sum of a sequence
RDot(s, t) == CHOOSE z \in {} : TRUE      \* dot product of two sequences

R0 == <<0, 0>>
R1 == RInt(1)
RMax(x, y) == IF RLeq(x, y) THEN y ELSE x
RMin(x, y) == IF RLeq(x, y) THEN x ELSE y
=============================================================================
