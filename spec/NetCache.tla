------------------------------ MODULE NetCache ------------------------------
(* A temporal network object and the matrices it keeps.                        *)
(*                                                                             *)
(* Matrices are kept by kind, rate and (linear approximation) mixing time      *)
(* only, although they depend on more: the window of the Laplacians, fixed     *)
(* durations, direction, which products are kept, tolerance.  want is the      *)
(* provenance that every kept matrix has to have; Apply is the effect of a     *)
(* computation on it.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

None == <<>>
StepKinds == {"inter", "lin"}
CumKinds == {"T", "Tlin"}
StepOf(kind) == IF kind = "T" THEN "inter" ELSE "lin"
CumOf(kind) == IF kind = "inter" THEN "T" ELSE "Tlin"
Key(kind, l, t) == <<kind, l, IF kind \in {"inter", "T"} THEN "-" ELSE t>>
LapKey == <<"lap", "-", "-">>
AdjKey == <<"adj", "-", "-">>

Get(c, k) == IF k \in DOMAIN c THEN c[k] ELSE None
Put(c, k, v) == [x \in (DOMAIN c) \cup {k} |-> IF x = k THEN v ELSE c[x]]
Drop(c, S) == [x \in (DOMAIN c) \ S |-> c[x]]
Empty == [x \in {} |-> None]

(* o: op, and w (window), adj, kind, l, t, fix, rev, keep, tol where they apply *)
Refused(c, o) == o.op = "cum" /\ Get(c, Key(StepOf(o.kind), o.l, o.t)) = None
Apply(c, o) ==
  CASE o.op = "lap" ->
         LET b == Put(Empty, LapKey, <<o.w>>) IN IF o.adj THEN Put(b, AdjKey, <<o.w>>) ELSE b
    [] o.op = "step" ->
         (* without Laplacians the step computes them first, for window o.w *)
         LET b == IF Get(c, LapKey) = None THEN Put(Empty, LapKey, <<o.w>>) ELSE c
             k == Key(o.kind, o.l, o.t)
             p == <<b[LapKey], o.fix>>
         IN  IF Get(b, k) = p THEN b
             ELSE Put(Drop(b, {Key(CumOf(o.kind), o.l, o.t)}), k, p)
    [] o.op = "cum" ->
         IF Refused(c, o) THEN c
         ELSE Put(c, Key(o.kind, o.l, o.t),
                  <<c[Key(StepOf(o.kind), o.l, o.t)], o.rev, o.keep, o.tol>>)
    [] o.op \in {"restore", "pickle"} -> c

Consistent(c) == \A k \in DOMAIN c :
   /\ k[1] \in StepKinds => c[k][1] = Get(c, LapKey)
   /\ k[1] \in CumKinds => c[k][1] = Get(c, Key(StepOf(k[1]), k[2], k[3]))
=============================================================================
