------------------------------ MODULE WorkPool ------------------------------
(* Work split over processes: tasks are handed out in chunks, workers finish   *)
(* in any order, a result is stored at the place of its task.  Whatever the    *)
(* schedule, the results are those of the serial map, in its order.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tasks, Workers, Chunk
VARIABLES queue, busy, results, shared
vars == <<queue, busy, results, shared>>
None == [first |-> 0, last |-> -1, at |-> 0]
Value(t) == t * t + 1                    \* a function of the task and the shared input alone
Init == /\ queue = 1 /\ busy = [w \in 1..Workers |-> None]
        /\ results = [t \in 1..Tasks |-> 0] /\ shared = "input"
Take(w) == /\ busy[w] = None /\ queue <= Tasks
           /\ LET l == IF queue + Chunk - 1 < Tasks THEN queue + Chunk - 1 ELSE Tasks
              IN  /\ busy' = [busy EXCEPT ![w] = [first |-> queue, last |-> l, at |-> queue]]
                  /\ queue' = l + 1
           /\ UNCHANGED <<results, shared>>
Compute(w) == /\ busy[w] # None /\ shared = "input"
              /\ results' = [results EXCEPT ![busy[w].at] = Value(busy[w].at)]
              /\ busy' = [busy EXCEPT ![w] = IF busy[w].at = busy[w].last THEN None
                                             ELSE [@ EXCEPT !.at = @ + 1]]
              /\ UNCHANGED <<queue, shared>>
AllDone == queue > Tasks /\ \A w \in 1..Workers : busy[w] = None
Release == AllDone /\ shared = "input" /\ shared' = "released" /\ UNCHANGED <<queue, busy, results>>
Next == (\E w \in 1..Workers : Take(w) \/ Compute(w)) \/ Release
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SerialResult == AllDone => results = [t \in 1..Tasks |-> Value(t)]
OneWorkerPerTask == \A v, w \in 1..Workers : v # w /\ busy[v] # None /\ busy[w] # None =>
                       busy[v].last < busy[w].first \/ busy[w].last < busy[v].first
InputThereWhileNeeded == shared = "released" => AllDone
Finishes == <>(shared = "released")
=============================================================================
