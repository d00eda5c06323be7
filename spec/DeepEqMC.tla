------------------------------- MODULE DeepEqMC -------------------------------
(* Pairs of structures up to depth two over a few leaves, and the laws a     *)
(* comparison must obey.                                                     *)
EXTENDS DeepEq, Json
CONSTANTS Big
VARIABLES a, b, ex, phase

Num(m, u) == [t |-> "num", m |-> m, u |-> u]
S(v) == [t |-> "str", v |-> v]
Leaves == {Num(0, 0), Num(0, 3), Num(0, 25), Num(1, 0), S("a"), S(""), [t |-> "none", v |-> ""],
           [t |-> "unicode", v |-> "a"]}
L(s) == [t |-> "list", of |-> s]
D(ks, s) == [t |-> "dict", keys |-> ks, of |-> s]
O(c, ks, s) == [t |-> "obj", cls |-> c, keys |-> ks, of |-> s]
Sl(c, ks, s) == [t |-> "slots", cls |-> c, keys |-> ks, of |-> s]
Few == {Num(0, 0), Num(0, 25), S("a")}
Flat == Leaves
   \cup {L(<<>>)} \cup {L(<<x>>) : x \in Few} \cup {[t |-> t, of |-> <<x>>] : t \in {"tuple", "iter"}, x \in Few}
   \cup {D(<<>>, <<>>)} \cup {D(<<kk>>, <<x>>) : kk \in {"x", "y"}, x \in Few}
   \cup {D(<<"x", "y">>, <<Num(0, 0), x>>) : x \in Few}
   \cup {O(c, <<kk>>, <<x>>) : c \in {"A", "B", "A2"}, kk \in {"x", "y"}, x \in Few}
   \cup {O("A", <<"x", "y">>, <<Num(0, 0), x>>) : x \in Few}
   \cup {Sl(c, <<"x", "y">>, <<Num(0, 0), x>>) : c \in {"SA", "SB"}, x \in Few}
Nested == {L(<<x>>) : x \in Flat} \cup {D(<<"x">>, <<x>>) : x \in Flat}
     \cup {O("A", <<"z">>, <<x>>) : x \in Flat} \cup {L(<<x, S("a")>>) : x \in Flat}
Excl == {{}, {"x"}, {"y"}}

\* the small pairs first, then pairs of nested structures of the same shape
Init == /\ ex \in Excl
        /\ phase \in {"flat", "nested"}
        /\ IF phase = "flat" THEN a \in Flat /\ b \in Flat
           ELSE a \in Nested /\ b = a
\* in a nested pair one leaf-level part is replaced
Next == /\ phase = "nested"
        /\ phase' = "changed"
        /\ \E x \in Flat : b' = IF Len(b.of) = 1 THEN [b EXCEPT !.of = <<x>>]
                                ELSE [b EXCEPT !.of = <<x, b.of[2]>>]
        /\ UNCHANGED <<a, ex>>
Reflexive == Cmp(a, a, ex) = "eq"
Symmetric == Cmp(a, b, ex) = Cmp(b, a, ex)
MonotoneInExclusions == Cmp(a, b, {}) = "eq" => Cmp(a, b, ex) = "eq"
SetToSeq(S0) == CHOOSE s \in [1..Cardinality(S0) -> S0] : \A x \in S0 : \E n \in 1..Cardinality(S0) : s[n] = x
Emit == PrintT("SCN " \o ToJson([a |-> a, b |-> b, ex |-> SetToSeq(ex)]))
=============================================================================
