---------------------------- MODULE J_StateTrack ----------------------------
(* A walk with the objects of one class; r.decl is its declaration.            *)
EXTENDS StateTrack, JudgeBase
Set(q) == {q[k] : k \in 1..Len(q)}
Step(d, S, o) ==
  CASE o.op = "new"  -> [S EXCEPT ![o.i] = Fresh(d)]
    [] o.op = "copy" -> [S EXCEPT ![o.i] = S[o.j]]
    [] o.op = "set"  -> [S EXCEPT ![o.i] = AfterSet(@, Prop(d, o.p), o.v)]
    [] o.op = "run"  -> [S EXCEPT ![o.i] = AfterRun(d, @, Meth(d, o.m), o.fails)]
Outcome(d, S, o) ==
  CASE o.op = "set" -> IF o.v = "fail" THEN "raised" ELSE "done"
    [] o.op = "run" -> IF ~CanRun(d, S[o.i], Meth(d, o.m)) THEN "refused" ELSE IF o.fails THEN "raised" ELSE "done"
    [] OTHER -> "done"
ObjClause(d, s, b) ==
  IF b.cur # s.cur THEN "state"
  ELSE IF Set(b.missing) # Missing(d, s) \/ Len(b.missing) # Cardinality(Missing(d, s)) THEN "missing_parameters"
  ELSE IF Suggested(d, s) = {} /\ b.next # "" THEN "suggested_step"
  ELSE IF Suggested(d, s) # {} /\ b.next \notin Suggested(d, s) THEN "suggested_step"
  ELSE "ok"
RECURSIVE Follow(_, _, _)
Follow(r, k, S) ==
  IF k > Len(r.ops) THEN "ok"
  ELSE LET o == r.ops[k]
           b == r.steps[k]
           T == Step(r.decl, S, o)
           c == FirstBad(LAMBDA i : ObjClause(r.decl, T[i], b.objs[i]), 1, Len(T))
       IN  IF b.outcome # Outcome(r.decl, S, o) THEN o.op \o "_is_" \o Outcome(r.decl, S, o)
           ELSE IF o.op = "run" /\ b.outcome = "done" /\ ~b.passed THEN "arguments_and_result_of_the_step"
           ELSE IF c # "ok" THEN c
           ELSE IF ~b.kept THEN "values_kept"
           ELSE Follow(r, k + 1, T)
AboutClause(d, a) ==
  IF Set(a.info) # Text(d, "info") THEN "description"
  ELSE IF Set(a.howto) # Text(d, "howto") THEN "instructions"
  ELSE IF \E k \in 1..Len(a.methods) : Set(a.methods[k][2]) # Leading(d, a.methods[k][1]) THEN "steps_that_lead_to_a_state"
  ELSE "ok"
VTrack(r) == IF r.raised # "" THEN "raised_" \o r.raised
             ELSE LET c == FirstBad(LAMBDA i : AboutClause(r.decl, r.about[i]), 1, Len(r.about))
                  IN  IF c # "ok" THEN c ELSE Follow(r, 1, <<Fresh(r.decl), Fresh(r.decl)>>)
=============================================================================
