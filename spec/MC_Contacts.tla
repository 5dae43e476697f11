---------------------------- MODULE MC_Contacts ----------------------------
EXTENDS Contacts
Groups == [i \in 0..(N - 1) |-> IF i < 2 THEN {0, 1} ELSE 0..(N - 1)]
Everybody == [i \in 0..(N - 1) |-> 0..(N - 1)]
=============================================================================
