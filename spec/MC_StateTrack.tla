--------------------------- MODULE MC_StateTrack ---------------------------
(* Classes with one step from every state to the next, and any parameters.     *)
(* Whatever a user does, every step up to the current state has run since the  *)
(* parameters that it depends on were last set (valid, a ghost), and following *)
(* the guidance reaches the last state.                                        *)
EXTENDS StateTrack, TLC
CONSTANTS Top, NumProps
VARIABLES d, s, valid
vars == <<d, s, valid>>
PropSet == [next : 0..Top, req : BOOLEAN, ign : BOOLEAN]
Names == <<"p", "q", "r">>
Decls == {[low |-> 0, meths |-> [k \in 1..Top |-> [name |-> k, min |-> k - 1, next |-> k]],
           props |-> [k \in 1..NumProps |-> [name |-> Names[k], next |-> f[k].next, req |-> f[k].req, ign |-> f[k].ign]]]
            : f \in [1..NumProps -> PropSet]}
Init == d \in Decls /\ s = Fresh(d) /\ valid = {}
Set(p, v) == /\ s' = AfterSet(s, p, v)
             /\ valid' = IF v = "fail" THEN valid ELSE {k \in valid : k <= p.next}
Run(m, fails) == /\ s' = AfterRun(d, s, m, fails)
                 /\ valid' = IF CanRun(d, s, m) /\ ~fails THEN {k \in valid : k < m.next} \cup {m.next} ELSE valid
Next == /\ d' = d
        /\ \/ \E k \in 1..Len(d.props), v \in {"val", "none", "drop", "fail"} : Set(d.props[k], v)
           \/ \E k \in 1..Len(d.meths), f \in BOOLEAN : Run(d.meths[k], f)
TypeOK == s.cur \in 0..Top /\ s.set \subseteq {Names[k] : k \in 1..NumProps}
Valid == \A k \in 1..s.cur : k \in valid
(* what was needed on the way is still set, or its state is not passed *)
Guided == /\ d' = d
          /\ IF Missing(d, s) # {} THEN \E n \in Missing(d, s) : Set(Prop(d, n), "val")
             ELSE /\ s.cur < Top
                  /\ \E n \in Suggested(d, s) : Run(Meth(d, n), FALSE)
(* the guidance starts from every state that can be reached *)
VARIABLE user
GInit == Init /\ user = TRUE
GNext == \/ user /\ Next /\ user' \in BOOLEAN
         \/ ~user /\ Guided /\ UNCHANGED user
GSpec == GInit /\ [][GNext]_<<vars, user>> /\ WF_<<vars, user>>(~user /\ Guided /\ UNCHANGED user)
Finishes == (~user) ~> (s.cur = Top)
GuidanceWorks == ~user /\ s.cur < Top => ENABLED (~user /\ Guided /\ UNCHANGED user)
FInit == GInit
FNext == Next /\ UNCHANGED user
=============================================================================
