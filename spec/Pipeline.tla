------------------------------ MODULE Pipeline ------------------------------
(* The analysis pipeline (FlowStability) as a state machine.                   *)
(*                                                                             *)
(* A user sets parameters and runs steps in any order.  stage is the progress  *)
(* of the analysis; every product (Laplacians, inter transition matrices, flow *)
(* clusterings, final partitions) carries the parameters it was computed with, *)
(* its provenance.  Freshness, that no product which the stage vouches for was *)
(* computed from parameters other than the current ones, is an invariant.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nets,       \* temporal networks
          Bounds,     \* values of t_start, t_stop; "none" is no bound
          Scales      \* time scales or lists of them

INITIAL == 0   TEMP_NW == 1   LAPLAC == 2   INTER_T == 3   CLUSTERING == 4   FINAL == 5

VARIABLES stage, net, tstart, tstop, scale, dir, isset, mode, lap, inter, clus, res
vars == <<stage, net, tstart, tstop, scale, dir, isset, mode, lap, inter, clus, res>>
params == <<net, tstart, tstop, scale, dir>>

None == "none"
Dirs == {-1, 0, 1}          \* backward, both, forward
Min(a, b) == IF a < b THEN a ELSE b

Required(k) == (IF k >= TEMP_NW THEN {"temporal_network", "t_start", "t_stop"} ELSE {})
               \cup (IF k >= LAPLAC THEN {"time_scale"} ELSE {})
               \cup (IF k >= INTER_T THEN {"time_direction"} ELSE {})
NextStep(k) == CASE k = INITIAL    -> "set_temporal_network"
                 [] k = TEMP_NW    -> "compute_laplacian_matrices"
                 [] k = LAPLAC     -> "compute_inter_transition_matrices"
                 [] k = INTER_T    -> "set_flow_clustering"
                 [] k = CLUSTERING -> "find_louvain_clustering"
                 [] k = FINAL      -> "find_louvain_clustering"
Missing(k, s) == Required(k) \ s
MinStage(m) == CASE m = "set_temporal_network" -> INITIAL
                 [] m = "compute_laplacian_matrices" -> TEMP_NW
                 [] m = "compute_inter_transition_matrices" -> LAPLAC
                 [] m = "set_flow_clustering" -> INTER_T
                 [] m = "find_louvain_clustering" -> CLUSTERING
CanRun(m) == stage >= MinStage(m) /\ Missing(MinStage(m), isset) = {}

NoProd == <<>>
(* products beyond the stage are not vouched for *)
Forget(k, l, i, c, r) ==
  /\ lap' = IF k >= LAPLAC THEN l ELSE NoProd
  /\ inter' = IF k >= INTER_T THEN i ELSE NoProd
  /\ clus' = IF k >= CLUSTERING THEN c ELSE NoProd
  /\ res' = IF k >= FINAL THEN r ELSE NoProd
GoTo(k) == stage' = k /\ Forget(k, lap, inter, clus, res)

Init == /\ stage = INITIAL /\ net = None /\ tstart = None /\ tstop = None
        /\ scale = None /\ dir = 0 /\ isset = {"t_start", "t_stop"} /\ mode = "exp"
        /\ lap = NoProd /\ inter = NoProd /\ clus = NoProd /\ res = NoProd

Mark(p, b) == isset' = IF b THEN isset \cup {p} ELSE isset \ {p}

(* ---- parameters ---- *)
SetNet(n) == /\ net' = n /\ Mark("temporal_network", n # None)
             /\ GoTo(IF n # None THEN TEMP_NW ELSE Min(stage, TEMP_NW))
             /\ UNCHANGED <<tstart, tstop, scale, dir, mode>>
(* an object that is no temporal network is dropped *)
SetNetBad == SetNet(None)
SetStart(v) == /\ tstart' = v /\ GoTo(Min(stage, TEMP_NW))
               /\ UNCHANGED <<net, tstop, scale, dir, isset, mode>>
SetStop(v) == /\ tstop' = v /\ GoTo(Min(stage, TEMP_NW))
              /\ UNCHANGED <<net, tstart, scale, dir, isset, mode>>
SetScale(s) == /\ scale' = s /\ Mark("time_scale", s # None) /\ GoTo(Min(stage, LAPLAC))
               /\ UNCHANGED <<net, tstart, tstop, dir, mode>>
SetDir(d, set) == /\ dir' = d /\ Mark("time_direction", set)
             /\ GoTo(Min(stage, INTER_T))
             /\ UNCHANGED <<net, tstart, tstop, scale, mode>>
(* values that are rejected with an exception change nothing *)
RejectedValue == UNCHANGED vars

(* ---- steps ---- *)
(* A step whose prerequisites are not met is refused and changes nothing.      *)
Refused(m) == ~CanRun(m) /\ UNCHANGED vars
Load(n) == /\ CanRun("set_temporal_network")
           /\ net' = n /\ Mark("temporal_network", n # None) /\ GoTo(TEMP_NW)
           /\ UNCHANGED <<tstart, tstop, scale, dir, mode>>
ComputeLap == /\ CanRun("compute_laplacian_matrices")
              /\ stage' = LAPLAC
              /\ Forget(LAPLAC, <<net, tstart, tstop>>, NoProd, NoProd, NoProd)
              /\ UNCHANGED <<params, isset, mode>>
ComputeInter(m, s) ==       \* s: time scale given with the call, or "keep"
  /\ CanRun("compute_inter_transition_matrices")
  /\ scale' = (IF s = "keep" THEN scale ELSE s)
  /\ stage' = INTER_T /\ mode' = m
  /\ Forget(INTER_T, lap, <<lap, scale', m>>, NoProd, NoProd)
  /\ UNCHANGED <<net, tstart, tstop, dir, isset>>
SetClustering == /\ CanRun("set_flow_clustering")
                 /\ stage' = CLUSTERING
                 /\ Forget(CLUSTERING, lap, inter, <<inter, dir>>, NoProd)
                 /\ UNCHANGED <<params, isset, mode>>
Louvain == /\ CanRun("find_louvain_clustering")
           /\ stage' = FINAL
           /\ Forget(FINAL, lap, inter, clus, <<clus>>)
           /\ UNCHANGED <<params, isset, mode>>
(* saving and restoring the analysis object *)
Pickle == UNCHANGED vars
(* a complete analysis of other data by another object *)
OtherAnalysis == UNCHANGED vars
(* a flow clustering put in place by the user (here: the one that is there)    *)
GiveClustering == GoTo(Min(stage, CLUSTERING)) /\ UNCHANGED <<params, isset, mode>>
(* a new analysis with parameters given at once *)
New(n, b, s, d, set) ==
  /\ net' = n /\ tstart' = b /\ tstop' = b /\ scale' = s /\ dir' = d /\ mode' = "exp"
  /\ isset' = {"t_start", "t_stop"} \cup (IF n # None THEN {"temporal_network"} ELSE {})
               \cup (IF s # None THEN {"time_scale"} ELSE {}) \cup (IF set THEN {"time_direction"} ELSE {})
  /\ stage' = (IF n # None THEN TEMP_NW ELSE INITIAL)
  /\ lap' = NoProd /\ inter' = NoProd /\ clus' = NoProd /\ res' = NoProd

Do(o) ==
  CASE o.op = "net"     -> SetNet(o.v)
    [] o.op = "netbad"  -> SetNetBad
    [] o.op = "start"   -> SetStart(o.v)
    [] o.op = "stop"    -> SetStop(o.v)
    [] o.op = "scale"   -> SetScale(o.v)
    [] o.op = "dir"     -> SetDir(o.d, o.v # None)
    [] o.op = "reject"  -> RejectedValue
    [] o.op = "load"    -> Load(o.v)
    [] o.op = "lap"     -> ComputeLap \/ Refused("compute_laplacian_matrices")
    [] o.op = "inter"   -> ComputeInter(o.m, o.v) \/ Refused("compute_inter_transition_matrices")
    [] o.op = "clus"    -> SetClustering \/ Refused("set_flow_clustering")
    [] o.op = "louvain" -> Louvain \/ Refused("find_louvain_clustering")
    [] o.op = "pickle"  -> Pickle
    [] o.op = "other"   -> OtherAnalysis
    [] o.op = "give"    -> GiveClustering
    [] o.op = "new"     -> New(o.n, o.b, o.s, o.d, o.v # None)

SomeScale == CHOOSE s \in Scales : TRUE
SomeNet == CHOOSE n \in Nets : TRUE
Ops == {[op |-> "net", v |-> n] : n \in Nets \cup {None}} \cup {[op |-> "netbad"]}
       \cup {[op |-> "start", v |-> b] : b \in Bounds} \cup {[op |-> "stop", v |-> b] : b \in Bounds}
       \cup {[op |-> "scale", v |-> s] : s \in Scales \cup {None}}
       \cup {[op |-> "dir", v |-> "val", d |-> d] : d \in Dirs}
       \cup {[op |-> "dir", v |-> None, d |-> 0]}
       \cup {[op |-> "reject", v |-> x] : x \in {"scale<0", "scale str", "scale list", "dir 2", "clus"}}
       \cup {[op |-> "load", v |-> n] : n \in Nets \cup {None}}
       \cup {[op |-> "lap"], [op |-> "clus"], [op |-> "louvain"], [op |-> "pickle"], [op |-> "other"]}
       \cup {[op |-> "inter", m |-> m, v |-> s] : m \in {"exp", "lin", "lin3"}, s \in Scales \cup {"keep"}}

       \cup {[op |-> "give", v |-> d] : d \in {"forward", "backward"}}
       \cup {[op |-> "new", n |-> n, b |-> b, s |-> s, d |-> 0, v |-> None] :
                n \in Nets \cup {None}, b \in Bounds, s \in {None, SomeScale}}
       \cup {[op |-> "new", n |-> SomeNet, b |-> None, s |-> SomeScale, d |-> d, v |-> "val"] : d \in Dirs}

Next == \E o \in Ops : Do(o)

(* ---- properties of the specification ---- *)
TypeOK == /\ stage \in INITIAL..FINAL /\ net \in Nets \cup {None}
          /\ isset \subseteq {"temporal_network", "t_start", "t_stop", "time_scale", "time_direction"}
FreshLap == stage >= LAPLAC => lap = <<net, tstart, tstop>> /\ net # None
FreshInter == stage >= INTER_T => inter = <<lap, scale, mode>> /\ scale # None
FreshClus == stage >= CLUSTERING => clus = <<inter, dir>>
FreshRes == stage >= FINAL => res = <<clus>>
Fresh == FreshLap /\ FreshInter /\ FreshClus /\ FreshRes
Ordered == /\ stage >= LAPLAC => lap # NoProd
           /\ stage >= INTER_T => inter # NoProd
           /\ stage >= CLUSTERING => clus # NoProd
           /\ stage >= FINAL => res # NoProd
(* What the guidance names is enough: with the missing parameters set, the     *)
(* named next step can run.                                                    *)
Guidance == LET m == NextStep(stage)
            IN  /\ stage >= MinStage(m)
                /\ Missing(MinStage(m), isset \cup Missing(stage, isset)) = {}
(* From every state the final stage is reached by following the guidance: set  *)
(* what is missing, run the suggested step (checked in MC_Pipeline).           *)
SetSomething(p) == CASE p = "temporal_network" -> SetNet(SomeNet)
                     [] p = "time_scale" -> SetScale(SomeScale)
                     [] p = "time_direction" -> SetDir(0, TRUE)
RunNext == CASE NextStep(stage) = "set_temporal_network" -> Load(SomeNet)
             [] NextStep(stage) = "compute_laplacian_matrices" -> ComputeLap
             [] NextStep(stage) = "compute_inter_transition_matrices" -> ComputeInter("exp", "keep")
             [] NextStep(stage) = "set_flow_clustering" -> SetClustering
             [] NextStep(stage) = "find_louvain_clustering" -> Louvain
Guided == IF Missing(stage, isset) # {} THEN \E p \in Missing(stage, isset) : SetSomething(p) ELSE RunNext

(* Emission of the state graph for the replay tour. *)
Abs == [stage |-> stage, net |-> net, tstart |-> tstart, tstop |-> tstop, scale |-> scale,
        dir |-> dir, isset |-> isset, mode |-> mode]
=============================================================================
