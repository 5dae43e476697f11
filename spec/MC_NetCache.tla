---------------------------- MODULE MC_NetCache ----------------------------
(* An implementation of NetCache that computes a matrix only when none is kept *)
(* under its key and that remembers, per key, the parameters of the last       *)
(* computation, next to the wanted provenance.  What is kept always has the    *)
(* wanted provenance.                                                          *)
EXTENDS NetCache, TLC, Json
CONSTANTS Windows, Rates, TSs, MaxLen, EmitWalks
VARIABLES want,     \* wanted provenance by key
          mats,     \* what the implementation keeps: the provenance of the matrices
          memo,     \* parameters of the last computation by key
          ops
vars == <<want, mats, memo, ops>>

KRT == {<<"inter", l, "-">> : l \in Rates} \cup {<<"lin", l, t>> : l \in Rates, t \in TSs}
Ops == {[op |-> "lap", w |-> w, adj |-> a] : w \in Windows, a \in BOOLEAN}
       \cup {[op |-> "step", kind |-> k[1], l |-> k[2], t |-> k[3], fix |-> f, w |-> w] :
               k \in KRT, f \in BOOLEAN, w \in Windows}
       \cup {[op |-> "cum", kind |-> CumOf(k[1]), l |-> k[2], t |-> k[3], rev |-> r, keep |-> s, tol |-> e] :
               k \in KRT, r \in BOOLEAN, s \in BOOLEAN, e \in {"no", "tol"}}
       \cup {[op |-> "restore"], [op |-> "pickle"]}
(* steps with a window only where they would use it *)
FirstW == CHOOSE w \in Windows : TRUE
Sensible(o) == /\ o.op = "lap" => o.adj = (o.w = FirstW)
               /\ (o.op = "step" /\ Get(want, LapKey) # None) => o.w = FirstW
               /\ (o.op = "cum" /\ o.kind = "Tlin") => o.tol = "no"
               /\ (o.op = "cum" /\ Refused(want, o)) => o.rev /\ o.keep
Init == want = Empty /\ mats = Empty /\ memo = Empty /\ ops = <<>>

(* keys of what is forgotten when the parameters under a key changed *)
Forget(m, k, p, S) == IF Get(memo, k) \notin {None, p} THEN Drop(m, S \cup {k}) ELSE m
Impl(o) ==
  CASE o.op = "lap" ->
         /\ mats' = (LET b == Put(Empty, LapKey, <<o.w>>) IN IF o.adj THEN Put(b, AdjKey, <<o.w>>) ELSE b)
         /\ memo' = Empty
    [] o.op = "step" ->
         LET fresh == Get(mats, LapKey) = None
             b == IF fresh THEN Put(Empty, LapKey, <<o.w>>) ELSE mats
             k == Key(o.kind, o.l, o.t)
             c == Forget(b, k, <<o.fix>>, {Key(CumOf(o.kind), o.l, o.t)})
         IN  /\ mats' = IF Get(c, k) = None THEN Put(c, k, <<c[LapKey], o.fix>>) ELSE c
             /\ memo' = Put(memo, k, <<o.fix>>)
    [] o.op = "cum" ->
         LET s == Key(StepOf(o.kind), o.l, o.t)
             k == Key(o.kind, o.l, o.t)
             p == <<o.rev, o.keep, o.tol>>
             c == Forget(mats, k, p, {})
         IN  IF Get(mats, s) = None THEN UNCHANGED <<mats, memo>>
             ELSE /\ mats' = IF Get(c, k) = None THEN Put(c, k, <<c[s], o.rev, o.keep, o.tol>>) ELSE c
                  /\ memo' = Put(memo, k, p)
    [] o.op \in {"restore", "pickle"} -> UNCHANGED <<mats, memo>>
Do(S) == /\ (EmitWalks => Len(ops) < MaxLen)
         /\ \E o \in {x \in S : Sensible(x)} :
               want' = Apply(want, o) /\ Impl(o) /\ ops' = IF EmitWalks THEN Append(ops, o) ELSE ops
Kind(k) == {o \in Ops : o.op = k}
(* (as separate actions: a random walk takes each kind equally often) *)
Next == \/ (EmitWalks => want = Empty \/ Len(ops) % 5 = 4) /\ Do(Kind("lap"))
        \/ Do(Kind("step"))
        \/ Do(Kind("cum"))
        \/ Do({o \in Kind("cum") : ~Refused(want, o)})
        \/ (EmitWalks => Len(ops) % 4 = 3) /\ Do(Kind("restore") \cup Kind("pickle"))
        \/ /\ EmitWalks /\ Len(ops) = MaxLen /\ PrintT(<<"W", ToJson(ops)>>)
           /\ ops' = <<>> /\ want' = Empty /\ mats' = Empty /\ memo' = Empty
Agree == mats = want
Inv == Consistent(want) /\ Agree
=============================================================================
