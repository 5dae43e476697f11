----------------------------- MODULE J_Pipeline -----------------------------
(* Trace validation: a recorded walk through the real pipeline is followed     *)
(* action by action in Pipeline; the first observation that no action of the   *)
(* specification explains gives the verdict.                                   *)
EXTENDS Pipeline, IOUtils, Safe
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Verdict(_),         \* unused (a walk has its own next-state relation)
         Facet               \* "structure" or "fresh"
VARIABLES jrec, jstep, jverdict
allv == <<vars, jrec, jstep, jverdict>>
SeqSet(s) == {s[k] : k \in 1..Len(s)}
Steps(k) == Trace[k].steps

IsMethod(o) == o.op \in {"lap", "inter", "clus", "louvain"}
MethodOf(o) == CASE o.op = "lap" -> "compute_laplacian_matrices"
                 [] o.op = "inter" -> "compute_inter_transition_matrices"
                 [] o.op = "clus" -> "set_flow_clustering"
                 [] o.op = "louvain" -> "find_louvain_clustering"
ExpectedOutcome(o) == IF o.op = "reject" THEN "raised"
                      ELSE IF IsMethod(o) /\ ~CanRun(MethodOf(o)) THEN "refused"
                      ELSE "ran"
Kept(b) == b.net = net' /\ b.start = tstart' /\ b.stop = tstop' /\ b.scale = scale' /\ b.dir = dir'
(* C01: the stage and the guidance are those of the specification *)
Structure(o, b) ==         \* o: operation, b: observation; in an action context
  IF b.outcome # ExpectedOutcome(o) THEN "outcome_is_" \o ExpectedOutcome(o)
  ELSE IF b.stage # stage' THEN "stage"
  ELSE IF SeqSet(b.missing) # Missing(stage', isset') THEN "missing_parameters"
  ELSE IF b.nextstep # NextStep(stage') THEN "next_step"
  ELSE IF ~b.helped THEN "help_names_them"
  ELSE IF ~Kept(b) THEN "parameters_kept"
  ELSE "ok"
(* C02: what the reached stage vouches for was computed from the parameters    *)
(* that the user set.  A walk whose steps run or are refused in another way    *)
(* than specified is the concern of C01 and not followed any further.          *)
Freshness(o, b) ==
  IF b.outcome # ExpectedOutcome(o) THEN "stop"
  ELSE IF b.stage >= LAPLAC /\ ~Kept(b) THEN "parameters_are_the_given_ones"
  ELSE IF b.stage >= LAPLAC /\ ~b.lapFresh THEN "laplacians_reflect_parameters"
  ELSE IF b.stage >= INTER_T /\ ~b.interFresh THEN "transition_matrices_reflect_parameters"
  ELSE IF b.stage >= CLUSTERING /\ ~b.clusFresh THEN "flow_clustering_reflects_parameters"
  ELSE IF b.stage >= FINAL /\ ~b.resFresh THEN "partition_reflects_parameters"
  ELSE "ok"
Clause(o, b) == IF Facet = "structure" THEN Structure(o, b) ELSE Freshness(o, b)

JInit == /\ Init /\ jrec \in 1..Len(Trace) /\ jstep = 1 /\ jverdict = "?"
JFollow == /\ jverdict = "?" /\ jstep <= Len(Steps(jrec))
           /\ LET s == Steps(jrec)[jstep]
              IN  /\ Do(s.o)
                  /\ LET c == Safe(Clause(s.o, s.b), "observation_has_the_expected_form")
                     IN  /\ jverdict' = IF c = "ok" THEN "?" ELSE IF c = "stop" THEN "ok" ELSE c
                         /\ IF c = "ok" THEN TRUE ELSE PrintT(<<"V", jrec, jverdict'>>)
           /\ jstep' = jstep + 1 /\ jrec' = jrec
JDone == /\ jverdict = "?" /\ jstep > Len(Steps(jrec)) /\ jverdict' = "ok"
         /\ PrintT(<<"V", jrec, "ok">>)
         /\ UNCHANGED <<vars, jrec, jstep>>
JRaised == FALSE
JNext == IF Trace[jrec].raised # "" /\ jverdict = "?"
         THEN /\ jverdict' = "raised" /\ PrintT(<<"V", jrec, "raised_" \o Trace[jrec].raised>>)
              /\ UNCHANGED <<vars, jrec, jstep>>
         ELSE JFollow \/ JDone
V0(x) == "ok"
=============================================================================
