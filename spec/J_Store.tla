------------------------------ MODULE J_Store -------------------------------
(* Walks of computing, saving, loading and opening: what is read back is what  *)
(* was in memory when it was saved, and saving changes nothing in memory.      *)
EXTENDS J_NetCache, Store
(* what a rounding may change: entries up to the tolerance (matrices of walks    *)
(* have no entry above 1), once for every difference that is summed up           *)
RndTol(x) == CASE x = "none" -> R0 [] x = "std" -> RPow10(-8) [] x = "coarse" -> RMul(RInt(3), RPow10(-4))
Within(A, B, tol) == /\ Len(A) = Len(B)
                     /\ \A i \in 1..Len(A) : /\ Len(A[i]) = Len(B[i])
                                             /\ \A j \in 1..Len(A[i]) : RLeq(RAbs(RSub(A[i][j], B[i][j])), tol)
AsInMemory(a, b, rnd, delta) ==
  /\ Len(a) = Len(b)
  /\ \A k \in 1..Len(a) :
       LET n == RMul(RInt(IF delta THEN k ELSE 1), RndTol(rnd))
       IN  Within(a[k], b[k], RAdd(RMul(n, RAdd(R1, RPow10(-6))), RMul(RInt(k), RPow10(-14))))
RndDigits(x) == CASE x = "none" -> 12 [] x = "std" -> 6 [] x = "coarse" -> 2
MinD(a, b) == IF a < b THEN a ELSE b
Pairs4(q) == {<<<<q[x][1], q[x][2], q[x][3]>>, q[x][4]>> : x \in 1..Len(q)}
(* metadata of the saved range *)
MetaOk(r, ts, win, m) ==
  LET w == WinOf(r, win)
      k1 == FirstK(ts, w)
      k2 == LastK(ts, w)
  IN  /\ m.kStart = k1 - 1 /\ m.kStop = k2 - 1 /\ m.num = N(r)
      /\ RNear(m.tStart, Real(r, ts[k1]), 12) /\ RNear(m.tStop, Real(r, ts[k2]), 12)
      /\ VNear(m.times, [k \in 1..(IF k2 >= k1 THEN k2 - k1 + 1 ELSE 0) |-> Real(r, ts[k1 + k - 1])], 12)
LoadClause(r, H, ts, x, m, b, ranged) ==     \* x: the file, m: memory when it was written, b: the observation
  IF {s[1] : s \in Pairs4(b.got)} # DOMAIN x.what THEN "all_saved_matrices_are_read_back"
  ELSE IF ranged /\ ~MetaOk(r, ts, x.win, b.meta) THEN "metadata_of_the_saved_range"
  ELSE IF \E s \in Pairs4(b.got) : ~SameMats(r.pool[s[2]], WantOf(r, H, ts, s[1], x.what[s[1]]),
                                             MinD(8, RndDigits(x.rnd)))
       THEN "matrices_are_read_back"
  ELSE IF \E s \in Pairs4(b.got) : \A q \in m.mem : q[1] = s[1] => ~AsInMemory(r.pool[s[2]], r.pool[q[2]], x.rnd, m.delta)
       THEN "matrices_are_those_in_memory_when_saved"
  ELSE "ok"
RECURSIVE FollowS(_, _, _, _, _, _, _)
FollowS(r, H, ts, k, s, fm, seen) ==
  IF k > Len(r.steps) THEN "ok"
  ELSE LET o == r.ops[k]
           b == r.steps[k]
           refused == Refuses(s, o, ToSet(r.compact))
           s1 == TLCEval(ApplyS(s, o, ToSet(r.compact)))
           shown == Pairs4(b.shown)
           fm1 == IF IsSave(o) /\ ~refused /\ ~Skips(s, o)
                  THEN Put(fm, o.f, [mem |-> shown, delta |-> o.op \in {"saveI", "saveL"} /\ o.delta]) ELSE fm
           todo == {x \in shown : <<x, Get(s1.c, x[1])>> \notin seen}
       IN  IF refused # (b.exc # "") THEN (IF b.exc = "" THEN "refused" ELSE "raised_" \o b.exc)
           ELSE IF {x[1] : x \in shown} # DOMAIN s1.c THEN "matrices_in_memory"
           ELSE IF (IsSave(o) \/ o.op \in {"loadI", "loadT"}) /\ ~b.same THEN "saving_changes_nothing_in_memory"
           ELSE IF ~b.netKept THEN "events_labels_and_nodes_are_restored"
           ELSE IF IsSave(o) /\ (refused \/ Skips(s, o)) /\ b.written THEN "file_overwritten_without_being_asked"
           ELSE IF IsSave(o) /\ ~refused /\ ~Skips(s, o) /\ ~b.there THEN "file_is_written"
           ELSE LET v == IF (o.op \in {"loadI", "loadT"} \/ IsSave(o)) /\ ~refused
                         THEN LoadClause(r, H, ts, s1.f[o.f], fm1[o.f], b, o.op # "save") ELSE "ok"
                IN  IF v # "ok" THEN v
                    ELSE IF \E x \in todo : ~SameMats(r.pool[x[2]], WantOf(r, H, ts, x[1], s1.c[x[1]]), 8)
                         THEN "matrices_of_the_network"
                    ELSE FollowS(r, H, ts, k + 1, s1, fm1, seen \cup {<<x, Get(s1.c, x[1])>> : x \in shown})
VStore(r) == IF r.raised # "" THEN "raised_" \o r.raised
             ELSE LET H == Effective(r) IN FollowS(r, H, MergedEnds(r, H), 1, Start, Empty, {})
=============================================================================
