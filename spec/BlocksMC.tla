------------------------------- MODULE BlocksMC -------------------------------
EXTENDS Blocks, Json
CONSTANTS MaxItems, MaxW, Weights

WAll == {-1, 0, 1, 2}
WOne == {1}
Kinds == {"a", "b"}
Seqs == UNION {[1..n -> Weights \X Kinds] : n \in 0..MaxItems}
Mk(s) == [n \in 1..Len(s) |-> [n |-> n, w |-> s[n][1], k |-> s[n][2]]]

MCInit == /\ \E s \in Seqs : items = Mk(s)
          /\ max \in 0..MaxW
          /\ Init
Emit == (status = "run" /\ pos = 0) => PrintT("SCN " \o ToJson([items |-> items, max |-> max]))
Stop == FALSE /\ UNCHANGED bvars
=============================================================================
