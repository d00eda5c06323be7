-------------------------------- MODULE DeepEq --------------------------------
(* Deep comparison of structures (openquake.commonlib.general.deep_eq).      *)
(*                                                                           *)
(* A value is [t, ...]:                                                      *)
(*   "num"  [m, u]: the number m + u * 10^-(decimals+1)                       *)
(*   "str", "none", "bool", "inf" [v]; "cplx" [of]: real and imaginary part  *)
(*   "list", "tuple", "iter" [of]  sequence of values ("iter": a generator)   *)
(*   "dict" [keys, of], "obj", "slots" [cls, keys, of]                       *)
(*                                                                           *)
(* The answer is "eq", "ne" or "any" where the documentation leaves it open  *)
(* (a list against a tuple, a text against a text of the other kind, numbers *)
(* differing by about one unit of the last decimal).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x

NumEq(a, b) ==
    IF a.m # b.m THEN "ne"
    ELSE IF Abs(a.u - b.u) <= 4 THEN "eq"
    ELSE IF Abs(a.u - b.u) >= 20 THEN "ne" ELSE "any"

RECURSIVE All(_)
All(rs) == IF rs = <<>> THEN "eq"
           ELSE IF Head(rs) = "ne" THEN "ne"
           ELSE LET r == All(Tail(rs)) IN
                IF r = "ne" THEN "ne" ELSE IF Head(rs) = "any" THEN "any" ELSE r

Seqs == {"list", "tuple", "iter"}
Keyed == {"dict", "obj", "slots"}
KeySet(a, ex) == {a.keys[n] : n \in 1..Len(a.keys)} \ ex
At(a, key) == a.of[CHOOSE n \in 1..Len(a.keys) : a.keys[n] = key]

RECURSIVE Cmp(_, _, _)
CmpSeq(a, b, ex) ==
    IF Len(a.of) # Len(b.of) THEN "ne"
    ELSE All(<<IF a.t = b.t THEN "eq" ELSE "any">> \o
             [n \in 1..Len(a.of) |-> Cmp(a.of[n], b.of[n], ex)])
CmpKeyed(a, b, ex) ==
    IF KeySet(a, ex) # KeySet(b, ex) THEN "ne"
    ELSE All([n \in 1..Len(a.keys) |->
                IF a.keys[n] \in ex THEN "eq"
                ELSE Cmp(At(a, a.keys[n]), At(b, a.keys[n]), ex)])
Cmp(a, b, ex) ==
    CASE a.t = "num" /\ b.t = "num" -> NumEq(a, b)
      [] a.t = "cplx" /\ b.t = "cplx" -> All([n \in 1..2 |-> NumEq(a.of[n], b.of[n])])
      [] {a.t, b.t} = {"cplx", "num"} -> "any"
      [] a.t \in Seqs /\ b.t \in Seqs -> CmpSeq(a, b, ex)
      [] a.t = "dict" /\ b.t = "dict" -> CmpKeyed(a, b, ex)
      [] a.t \in {"obj", "slots"} /\ b.t = a.t ->
            IF a.cls # b.cls THEN "ne" ELSE CmpKeyed(a, b, ex)
      [] a.t = b.t -> (IF a.v = b.v THEN "eq" ELSE "ne")
      [] {a.t, b.t} = {"str", "unicode"} -> (IF a.v = b.v THEN "any" ELSE "ne")
      [] {a.t, b.t} = {"num", "bool"} -> "any"
      [] {a.t, b.t} = {"iter", "dict"} -> "any"
      [] OTHER -> "ne"
=============================================================================
