------------------------------ MODULE Louvain ------------------------------
(* The optimisation of a grouping, for every order in which nodes are visited  *)
(* and every choice between equally good groups: nodes move to the linked      *)
(* group with the largest gain (also with none); when a round gains nothing,   *)
(* groups become the nodes of the next level; it ends when a level gains       *)
(* nothing.                                                                    *)
EXTENDS Quality
CONSTANTS N, Neg, Hi, MaxStart   \* entries are -Neg..Hi
VARIABLES S0, linked, start, \* the problem: matrix, linked pairs, starting grouping
          S, grp,            \* current level: matrix on its nodes, their groups
          part,              \* grouping of the original nodes at the start of the level
          left, roundGain, levelGain, level, done,
          tied               \* some node moved without gain
vars == <<S0, linked, start, S, grp, part, left, roundGain, levelGain, level, done, tied>>
Nodes == 1..N
Sing == [i \in Nodes |-> i]
(* what is gained depends on S + S^T without its diagonal only *)
UP == {p \in Nodes \X Nodes : p[1] < p[2]}
Mats == {[i \in Nodes |-> [j \in Nodes |-> IF i < j THEN m[<<i, j>>] ELSE 0]] : m \in [UP -> (-Neg)..Hi]}
RG == {h \in [Nodes -> Nodes] : \A i \in Nodes : h[i] <= Cardinality({h[j] : j \in 1..(i - 1)}) + 1}
Pairs == {p \in Nodes \X Nodes : p[1] # p[2]}
Init == /\ S0 \in Mats
        /\ linked \in {Pairs, {p \in Pairs : S0[p[1]][p[2]] + S0[p[2]][p[1]] > 0}}
        /\ start \in {f \in RG : f = Sing \/ Cardinality(Groups(f)) <= MaxStart}
        /\ S = S0 /\ grp = start /\ part = Sing
        /\ left = Nodes /\ roundGain = 0 /\ levelGain = 0 /\ level = 1 /\ done = FALSE /\ tied = FALSE
(* original nodes that stand behind a node of this level *)
Behind(x) == {i \in Nodes : part[i] = x}
LinkedTo(x, y) == \E i \in Behind(x), j \in Behind(y) : <<i, j>> \in linked
Options(x) == {grp[y] : y \in {z \in DOMAIN grp : LinkedTo(x, z)}} \ {grp[x]}
Visit == /\ ~done /\ left # {}
         /\ \E x \in left :
              /\ left' = left \ {x}
              /\ LET best == {c \in Options(x) : /\ Gain(S, grp, x, c) >= 0
                                                 /\ \A d \in Options(x) : Gain(S, grp, x, d) <= Gain(S, grp, x, c)}
                 IN  IF best = {} THEN UNCHANGED <<grp, roundGain, tied>>
                     ELSE \E c \in best : /\ grp' = [grp EXCEPT ![x] = c]
                                          /\ roundGain' = roundGain + Gain(S, grp, x, c)
                                          /\ tied' = (tied \/ Gain(S, grp, x, c) = 0)
         /\ UNCHANGED <<S0, linked, start, S, part, levelGain, level, done>>
NewRound == /\ ~done /\ left = {} /\ roundGain > 0
            /\ left' = DOMAIN grp /\ levelGain' = levelGain + roundGain /\ roundGain' = 0
            /\ UNCHANGED <<S0, linked, start, S, grp, part, level, done, tied>>
Whole == [i \in Nodes |-> grp[part[i]]]
EndLevel == /\ ~done /\ left = {} /\ roundGain = 0
            /\ IF levelGain = 0
               THEN done' = TRUE /\ UNCHANGED <<S, grp, part, left, levelGain, level>>
               ELSE /\ part' = Whole /\ S' = Aggregate(S, grp)
                    /\ grp' = [a \in Groups(grp) |-> a] /\ left' = Groups(grp)
                    /\ levelGain' = 0 /\ level' = level + 1 /\ done' = FALSE
            /\ UNCHANGED <<S0, linked, start, roundGain, tied>>
Next == Visit \/ NewRound \/ EndLevel
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ---- *)
QualityBooked == Q(S0, Whole) = Q(S, grp)
NeverWorse == Q(S0, Whole) >= Q(S0, start)
Monotone == [][Q(S0, Whole)' >= Q(S0, Whole)]_vars
(* from the second level on groups only grow together *)
Coarsens == level > 1 => \A i, j \in Nodes : part[i] = part[j] => Whole[i] = Whole[j]
Terminates == <>done
GroupsOf(f) == Groups(f)
LinkedGroups(f, a, b) == \E i \in Members(f, a), j \in Members(f, b) : <<i, j>> \in linked
MergeGain(f, a, b) == Block(S0, Members(f, a), Members(f, b)) + Block(S0, Members(f, b), Members(f, a))
(* a result that was started from single nodes, or improved on by moving them:  *)
(* joining two linked groups gains nothing.  With ties this can fail (moves     *)
(* without gain in the last round can make room for one).                       *)
NoMergeGains == done /\ (start = Sing \/ level > 1) /\ ~tied =>
   \A a, b \in Groups(Whole) : a # b /\ LinkedGroups(Whole, a, b) => MergeGain(Whole, a, b) <= 0
(* at the end of the first level no node gains by moving to a linked group *)
FirstLevelOptimal == level = 1 /\ ~done /\ left = {} /\ roundGain = 0 /\ ~tied =>
   \A x \in Nodes : \A c \in Options(x) : Gain(S, grp, x, c) <= 0
Bounded == level <= N + 1
=============================================================================
