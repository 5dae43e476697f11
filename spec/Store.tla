------------------------------- MODULE Store --------------------------------
(* A temporal network object, the matrices it keeps (NetCache) and the files   *)
(* that it and its matrices are saved to.  A file holds the provenance of what *)
(* was saved; reading it gives that back, whatever happened to the network in  *)
(* the meantime.                                                               *)
EXTENDS NetCache

(* s.c: matrices in memory, s.f: files, s.w: window of the latest Laplacians.  *)
(* sp: the rates whose matrices are kept in compact form                       *)
Start == [c |-> Empty, f |-> Empty, w |-> None]
Select(c, K) == [k \in K |-> c[k]]
Of(c, kind, l) == {k \in DOMAIN c : k[1] = kind /\ (l = "all" \/ k[2] = l)}
(* matrices of the whole network that a save or an opening is restricted to *)
Kinds(sel) == CASE sel = "all" -> {"lap", "adj", "inter", "lin", "T", "Tlin"}
                [] sel = "lap" -> {"lap"}
                [] sel = "steps" -> {"lap", "inter", "lin"}
                [] sel = "inter" -> {"inter"}
Restrict(c, sel) == Select(c, {k \in DOMAIN c : k[1] \in Kinds(sel)})
Exists(s, o) == o.f \in DOMAIN s.f
KindOf(o) == CASE o.op = "saveI" -> "inter" [] o.op = "saveL" -> "lin"
               [] o.op = "saveT" -> "T" [] o.op = "saveTL" -> "Tlin"
IsSave(o) == o.op \in {"save", "saveI", "saveL", "saveT", "saveTL"}
IsLoad(o) == o.op \in {"open", "loadI", "loadT"}
(* step matrices are written only if the file is not there or is to be replaced *)
Skips(s, o) == o.op \in {"saveI", "saveL"} /\ Exists(s, o) /\ ~o.rep
               /\ \E k \in DOMAIN s.c : k[1] = KindOf(o)
SaveRefused(s, o, sp) ==
  CASE o.op = "save" -> FALSE
    [] o.op \in {"saveI", "saveL"} -> ~Skips(s, o) /\ (Of(s.c, KindOf(o), o.l) = {} \/ \E k \in Of(s.c, KindOf(o), o.l) : o.delta = (k[2] \in sp))
    [] o.op \in {"saveT", "saveTL"} -> \/ Of(s.c, KindOf(o), o.l) = {}
                                       \/ \E k \in Of(s.c, KindOf(o), o.l) : s.c[k][3]
    [] OTHER -> FALSE
Refuses(s, o, sp) == CASE IsSave(o) -> SaveRefused(s, o, sp)
                       [] IsLoad(o) -> ~Exists(s, o)
                       [] OTHER -> Refused(s.c, o)
Write(s, o) == [s EXCEPT !.f = Put(s.f, o.f,
   IF o.op = "save" THEN [what |-> Restrict(s.c, o.sel), win |-> s.w, rnd |-> "none"]
   ELSE [what |-> Select(s.c, Of(s.c, KindOf(o), o.l)), win |-> s.w, rnd |-> o.rnd])]
ApplyS(s, o, sp) ==
  IF Refuses(s, o, sp) THEN s
  ELSE CASE IsSave(o) -> IF Skips(s, o) THEN s ELSE Write(s, o)
         [] o.op = "open" -> [s EXCEPT !.c = Restrict(s.f[o.f].what, o.sel), !.w = s.f[o.f].win]
         [] o.op \in {"loadI", "loadT"} -> s
         [] OTHER -> LET c == Apply(s.c, o) IN [s EXCEPT !.c = c, !.w = IF LapKey \in DOMAIN c THEN c[LapKey] ELSE s.w]

(* ---- difference encoding of a sequence of matrices (here: of numbers) ---- *)
Delta(q) == [first |-> q[1], d |-> [k \in 1..(Len(q) - 1) |-> q[k + 1] - q[k]]]
RECURSIVE Undo(_, _)
Undo(acc, d) == IF d = <<>> THEN acc ELSE Undo(Append(acc, acc[Len(acc)] + Head(d)), Tail(d))
Undelta(x) == Undo(<<x.first>>, x.d)
=============================================================================
