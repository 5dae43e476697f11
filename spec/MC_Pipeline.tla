---------------------------- MODULE MC_Pipeline ----------------------------
(* Exhaustive exploration of Pipeline; prints the edges of the state graph for *)
(* the transition tour that is replayed into the implementation.               *)
EXTENDS Pipeline
CONSTANT EmitEdges
NextE == \E o \in Ops : Do(o) /\ (EmitEdges => PrintT(<<"E", ToJson([f |-> Abs, o |-> o, t |-> Abs'])>>))
(* any history, then the guidance is followed *)
VARIABLE obeying
GInit == Init /\ obeying = FALSE
GNext == \/ ~obeying /\ Next /\ obeying' \in BOOLEAN
         \/ obeying /\ stage # FINAL /\ Guided /\ UNCHANGED obeying
GSpec == GInit /\ [][GNext]_<<vars, obeying>> /\ WF_<<vars, obeying>>(obeying /\ stage # FINAL /\ Guided /\ UNCHANGED obeying)
Finishes == obeying ~> stage = FINAL
NeverStuck == obeying /\ stage # FINAL => ENABLED Guided
FInit == Init /\ obeying = FALSE
FNext == NextE /\ UNCHANGED obeying
Spec == Init /\ [][NextE]_vars
=============================================================================
