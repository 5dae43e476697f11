------------------------------ MODULE Contacts ------------------------------
(* Individuals who wake up, start contacts and end them (SynthTempNetwork), in *)
(* discrete time here.  Draws (waiting times, durations, partners) and the     *)
(* order of simultaneous events are nondeterministic.                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

CONSTANTS N, K, Horizon, Waits, Durations,
          Allowed        \* function: individual -> whom it may choose (group structure)
VARIABLES now, wake, live, recorded, started, states
vars == <<now, wake, live, recorded, started, states>>
People == 0..(N - 1)
Targets(i) == {c.tgt : c \in {x \in live : x.src = i}}
Free(i) == (Allowed[i] \ {i}) \ Targets(i)
Least(a, b) == IF a < b THEN a ELSE b
NextTime == LET S == {wake[i] : i \in People} \cup {c.e : c \in live}
            IN  CHOOSE t \in S : \A u \in S : t <= u
Pairs(S) == {<<c.src, c.tgt>> : c \in S}

Init == /\ now = 0 /\ wake \in [People -> Waits] /\ live = {} /\ recorded = <<>> /\ started = {}
        /\ states = [t \in {0} |-> {}]
Save(t, S) == states' = [x \in (DOMAIN states) \cup {t} |-> IF x = t THEN Pairs(S) ELSE states[x]]
Activate(i) ==
  /\ now < Horizon /\ wake[i] = NextTime /\ now' = NextTime
  /\ \E w \in Waits : wake' = [wake EXCEPT ![i] = @ + w]
  /\ \E S \in kSubset(Least(K, Cardinality(Free(i))), Free(i)) : \E d \in [S -> Durations] :
       LET new == {[src |-> i, tgt |-> j, s |-> now', e |-> now' + d[j]] : j \in S}
       IN  /\ live' = live \cup new /\ started' = started \cup new /\ Save(now', live')
  /\ UNCHANGED recorded
Finish(c) ==
  /\ now < Horizon /\ c.e = NextTime /\ now' = NextTime
  /\ live' = live \ {c} /\ recorded' = Append(recorded, c) /\ Save(now', live')
  /\ UNCHANGED <<wake, started>>
Next == (\E i \in People : Activate(i)) \/ (\E c \in live : Finish(c))

SetOf(s) == {s[k] : k \in 1..Len(s)}
InOrderOfEnding == \A k \in 1..(Len(recorded) - 1) : recorded[k].e <= recorded[k + 1].e
RecordedOnce == /\ SetOf(recorded) \cup live = started /\ SetOf(recorded) \cap live = {}
                /\ Len(recorded) = Cardinality(SetOf(recorded))
NeverAlone == \A c \in started : c.src # c.tgt /\ c.tgt \in Allowed[c.src] /\ c.s < c.e
NotTwiceAtOnce == \A c, d \in started : c # d /\ c.src = d.src /\ c.tgt = d.tgt => c.e <= d.s \/ d.e <= c.s
AllEndedAreThere == now >= Horizon => \A c \in started : c.e < Horizon => c \in SetOf(recorded)
(* a state that was saved before the present moment shows who was in contact *)
StatesAgree == \A t \in DOMAIN states : t < now => states[t] = Pairs({c \in started : c.s <= t /\ t < c.e})
Clock == now < Horizon => NextTime >= now
=============================================================================
