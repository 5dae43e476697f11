------------------------------ MODULE MC_Store ------------------------------
EXTENDS Store, TLC, Json
CONSTANTS Windows, Rates, TSs, Files, Rounds, Sparse, MaxLen, EmitWalks
ASSUME \A n \in 1..4 : \A q \in [1..n -> 0..2] : Undelta(Delta(q)) = q
VARIABLES s, ops
vars == <<s, ops>>
FirstW == CHOOSE w \in Windows : TRUE
Laps == {[op |-> "lap", w |-> w, adj |-> (w = FirstW)] : w \in Windows}
KRT == {<<"inter", l, "-">> : l \in Rates} \cup {<<"lin", l, t>> : l \in Rates, t \in TSs}
StepOps == {[op |-> "step", kind |-> k[1], l |-> k[2], t |-> k[3], fix |-> f, w |-> w] :
              k \in KRT, f \in BOOLEAN, w \in Windows}
CumOps == {[op |-> "cum", kind |-> CumOf(k[1]), l |-> k[2], t |-> k[3], rev |-> r, keep |-> q, tol |-> "no"] :
              k \in KRT, r \in BOOLEAN, q \in BOOLEAN}
SaveOps == {[op |-> "save", f |-> f, sel |-> x] : f \in {g \in Files : g = "N"}, x \in {"all", "lap", "steps", "inter"}}
   \cup {[op |-> "saveI", f |-> f, l |-> l, rnd |-> r, delta |-> d, rep |-> p] :
           f \in Files \cap {"I", "Iz"}, l \in Rates \cup {"all"}, r \in Rounds, d \in BOOLEAN, p \in BOOLEAN}
   \cup {[op |-> "saveL", f |-> f, l |-> l, rnd |-> r, delta |-> d, rep |-> p] :
           f \in Files \cap {"L", "Lz"}, l \in Rates \cup {"all"}, r \in Rounds, d \in BOOLEAN, p \in BOOLEAN}
   \cup {[op |-> "saveT", f |-> f, l |-> l, rnd |-> r] : f \in Files \cap {"T", "Tz"}, l \in Rates \cup {"all"}, r \in Rounds}
   \cup {[op |-> "saveTL", f |-> f, l |-> l, rnd |-> r] : f \in Files \cap {"U", "Uz"}, l \in Rates \cup {"all"}, r \in Rounds}
LoadOps == {[op |-> "open", f |-> f, sel |-> x] : f \in Files \cap {"N"}, x \in {"all", "lap", "steps", "inter"}}
   \cup {[op |-> "loadI", f |-> f] : f \in Files \cap {"I", "Iz", "L", "Lz"}}
   \cup {[op |-> "loadT", f |-> f] : f \in Files \cap {"T", "Tz", "U", "Uz"}}
Sensible(o) ==
  /\ (o.op = "step" /\ Get(s.c, LapKey) # None) => o.w = FirstW
  /\ o.op = "cum" => ~Refused(s.c, o)
  /\ (o.op \in {"saveI", "saveL"} /\ SaveRefused(s, o, Sparse)) => o.rep /\ o.l = "all" /\ o.rnd = "std"
  /\ (o.op = "saveL" /\ o.delta) => \A k \in Of(s.c, "lin", o.l) : k[2] \notin Sparse    \* left open
  /\ (IsSave(o) /\ o.op # "save") => Of(s.c, KindOf(o), o.l) # {}
  /\ IsLoad(o) => Exists(s, o)
Init == s = Start /\ ops = <<>>
Do(S) == \E o \in {x \in S : Sensible(x)} :
            s' = ApplyS(s, o, Sparse) /\ ops' = IF EmitWalks THEN Append(ops, o) ELSE ops
Go == EmitWalks => Len(ops) < MaxLen
Next == \/ Go /\ (EmitWalks => DOMAIN s.c = {} \/ Len(ops) % 6 = 5) /\ Do(Laps)
        \/ Go /\ Do(StepOps)
        \/ Go /\ Do(CumOps)
        \/ Go /\ Do({o \in CumOps : ~o.keep})
        \/ Go /\ Do({o \in SaveOps : o.op = "save"})
        \/ Go /\ Do({o \in SaveOps : o.op = "saveI"})
        \/ Go /\ Do({o \in SaveOps : o.op = "saveL"})
        \/ Go /\ Do({o \in SaveOps : o.op = "saveT"})
        \/ Go /\ Do({o \in SaveOps : o.op = "saveTL"})
        \/ Go /\ Do(LoadOps)
        \/ Go /\ Do({o \in LoadOps : o.op # "open"})
        \/ /\ EmitWalks /\ Len(ops) = MaxLen /\ PrintT(<<"W", ToJson(ops)>>)
           /\ ops' = <<>> /\ s' = Start
FilesConsistent == \A f \in DOMAIN s.f :
   LET x == s.f[f]
   IN  /\ f \in {"I", "Iz", "L", "Lz"} => \A k \in DOMAIN x.what : x.what[k][1] = x.win
       /\ f \in {"T", "Tz", "U", "Uz"} => \A k \in DOMAIN x.what : x.what[k][1][1] = x.win /\ ~x.what[k][3]
       /\ f # "N" => DOMAIN x.what # {}
(* opening restricted to some matrices may leave steps without their Laplacians, *)
(* but never with those of other parameters                                      *)
MemoryConsistent == \A k \in DOMAIN s.c :
   /\ k[1] \in StepKinds => Get(s.c, LapKey) \in {None, s.c[k][1]}
   /\ k[1] \in CumKinds => Get(s.c, Key(StepOf(k[1]), k[2], k[3])) \in {None, s.c[k][1]}
=============================================================================
