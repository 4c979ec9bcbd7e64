-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* What random walks replace Offer by.  The comparison of the state with   *)
(* itself keeps TLC from choosing once and for all.                        *)
(***************************************************************************)
EXTENDS Randomization, FiniteSets, Integers
Some(S, n) == IF Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
OneOf(S, state) == IF state = state THEN Some(S, 1) ELSE S
TwoOf(S, state) == IF state = state THEN Some(S, 2) ELSE S
Many(S, state) == IF state = state THEN Some(S, 12) ELSE S
=============================================================================
