----------------------------- MODULE JudgeBase -----------------------------
(* Trace judging: every record of the trace (a scenario together with what the *)
(* implementation was observed to do) gets a verdict, "ok" or the name of the  *)
(* clause of the specification that it violates.                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Safe
CONSTANT Verdict(_)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES jrec, jverdict
JInit == jrec \in 1..Len(Trace) /\ jverdict = "?"
JNext == /\ jverdict = "?"
         /\ jrec' = jrec
         /\ jverdict' = Safe(Verdict(Trace[jrec]), "observation_has_the_expected_form")
         /\ PrintT(<<"V", jrec, jverdict'>>)

(* The first clause other than "ok" among Op(k), ..., Op(m). *)
RECURSIVE FirstBad(_, _, _)
FirstBad(Op(_), k, m) == IF k > m THEN "ok"
                         ELSE LET v == Op(k) IN IF v # "ok" THEN v ELSE FirstBad(Op, k + 1, m)
=============================================================================
