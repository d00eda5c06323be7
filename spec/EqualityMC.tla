------------------------------ MODULE EqualityMC ------------------------------
(* Pairs of sequences to compare: two sequences grow item by item, in all    *)
(* ways up to a length, so that equal ones, prefixes, and ones differing in  *)
(* any single place are all there.                                           *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS MaxLen
VARIABLES a, b
Items == {"1", "2"}
Init == a = <<>> /\ b = <<>>
Next == \/ Len(a) < MaxLen /\ \E x \in Items : a' = Append(a, x) /\ b' = b
        \/ Len(b) < MaxLen /\ \E x \in Items : b' = Append(b, x) /\ a' = a
Emit == PrintT("SCN " \o ToJson([a |-> a, b |-> b]))
=============================================================================
