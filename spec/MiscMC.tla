-------------------------------- MODULE MiscMC --------------------------------
(* Inputs for the small utilities, enumerated.                               *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
V == {"a", "b", "c"}
Seqs == UNION {[1..n -> V] : n \in 0..5}
Init == \/ \E s \in Seqs : x = [call |-> "distinct", keys |-> s]
        \/ \E a \in -30..30, b \in 1..9 : x = [call |-> "ceil", a |-> a, b |-> b]
Next == FALSE /\ x' = x
Emit == PrintT("SCN " \o ToJson(x))
=============================================================================
