----------------------------- MODULE StateTrack -----------------------------
(* Classes whose steps and parameters are registered with states.              *)
(*                                                                             *)
(* A declaration d has the lowest state (d.low), steps (d.meths, each with the *)
(* state it needs at least and the one it leads to) and parameters (d.props,   *)
(* each with the state that the object is put back to, whether it is required  *)
(* and whether None, or a value that is dropped, unsets it).  An object is its *)
(* state (cur) and the parameters that are set (set).                          *)
EXTENDS Integers, Sequences, FiniteSets

Meth(d, name) == d.meths[CHOOSE k \in 1..Len(d.meths) : d.meths[k].name = name]
Prop(d, name) == d.props[CHOOSE k \in 1..Len(d.props) : d.props[k].name = name]
Lower(a, b) == IF a < b THEN a ELSE b
NeededAt(d, k) == {d.props[i].name : i \in {j \in 1..Len(d.props) : d.props[j].req /\ d.props[j].next <= k}}
Fresh(d) == [cur |-> d.low, set |-> {}]

(* v: a value, "none", "drop" (a value that the class does not keep), "fail"   *)
(* (a value that it rejects)                                                   *)
AfterSet(s, p, v) ==
  IF v = "fail" THEN s
  ELSE [cur |-> Lower(s.cur, p.next),
        set |-> IF v = "val" \/ ~p.ign THEN s.set \cup {p.name} ELSE s.set \ {p.name}]
CanRun(d, s, m) == s.cur >= m.min /\ NeededAt(d, m.min) \subseteq s.set
AfterRun(d, s, m, fails) == IF ~CanRun(d, s, m) \/ fails THEN s ELSE [s EXCEPT !.cur = m.next]

Missing(d, s) == NeededAt(d, s.cur) \ s.set
Suggested(d, s) ==       \* the furthest steps whose state is reached
  LET ok == {k \in 1..Len(d.meths) : d.meths[k].min <= s.cur}
  IN  {d.meths[k].name : k \in {x \in ok : \A y \in ok : d.meths[y].min <= d.meths[x].min}}

(* What objects tell about their class: the text of every step and parameter,  *)
(* how to set it, and the steps that lead to a state or to an earlier one.     *)
Text(d, what) ==
  {<<m.name, IF m.doc THEN "Runs " \o m.name \o " with x" ELSE "">> : m \in {d.meths[k] : k \in 1..Len(d.meths)}} \cup
  {<<p.name, IF ~p.doc THEN "" ELSE IF what = "info" THEN "The value of " \o p.name \o " and more about it."
             ELSE "Sets " \o p.name>> : p \in {d.props[k] : k \in 1..Len(d.props)}}
Leading(d, k) == {d.meths[i].name : i \in {j \in 1..Len(d.meths) : d.meths[j].next <= k}}
=============================================================================
