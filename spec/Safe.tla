-------------------------------- MODULE Safe --------------------------------
(* Safe(e, d) is e, or d if e cannot be evaluated (an observation that does    *)
(* not have the expected form, such as a matrix of another size).  Overridden  *)
(* by SafeOverrides.java; it makes the verdicts total.                         *)
Safe(e, d) == e
=============================================================================
