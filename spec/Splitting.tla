------------------------------- MODULE Splitting -------------------------------
(* Splitting a source (openquake.commonlib.source.split_source) as a machine  *)
(* that visits the magnitudes of a fault or the grid points of an area one    *)
(* at a time and yields the parts.                                            *)
(*                                                                            *)
(* src: [kind, id, rates, grid, rest]                                         *)
(*   kind   "fault", "area" or "other"                                        *)
(*   rates  sequence of [m, r, f, nz]: magnitude, rate (as written), rate as  *)
(*          an integer number of small units, whether it is not zero          *)
(*   grid   sequence of points (areas)                                        *)
(*   rest   set of <<attribute, value>> the parts inherit                     *)
(* part: [id, rates, loc, rest]                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES src, visited, parts, ended
svars == <<src, visited, parts, ended>>

Items == CASE src.kind = "fault" -> Len(src.rates)
           [] src.kind = "area" -> Len(src.grid)
           [] OTHER -> 1

Share(q) == [n \in 1..Len(q) |-> [q[n] EXCEPT !.f = @ \div Len(src.grid)]]
PartAt(n, num) ==
    CASE src.kind = "fault" -> [id |-> <<src.id, num>>, rates |-> <<src.rates[n]>>,
                                loc |-> <<>>, rest |-> src.rest]
      [] src.kind = "area" -> [id |-> <<src.id, num>>, rates |-> Share(src.rates),
                               loc |-> src.grid[n], rest |-> src.rest]
      [] OTHER -> [id |-> <<src.id>>, rates |-> src.rates, loc |-> <<>>, rest |-> src.rest]
Skips(n) == src.kind = "fault" /\ ~src.rates[n].nz

Init == visited = 0 /\ parts = <<>> /\ ended = FALSE
Visit == /\ ~ended /\ visited < Items
         /\ visited' = visited + 1
         /\ parts' = IF Skips(visited + 1) THEN parts
                     ELSE Append(parts, PartAt(visited + 1, Len(parts)))
         /\ UNCHANGED <<src, ended>>
End == ~ended /\ visited = Items /\ ended' = TRUE /\ UNCHANGED <<src, visited, parts>>
Next == Visit \/ End

-----------------------------------------------------------------------------
RECURSIVE SumRates(_)
SumRates(q) == IF q = <<>> THEN 0 ELSE Head(q).f + SumRates(Tail(q))
RECURSIVE SumParts(_)
SumParts(ps) == IF ps = <<>> THEN 0 ELSE SumRates(Head(ps).rates) + SumParts(Tail(ps))
RECURSIVE RateAt(_, _)   \* total rate of a magnitude among the parts
RateAt(ps, m) == IF ps = <<>> THEN 0
                 ELSE SumRates(SelectSeq(Head(ps).rates, LAMBDA x : x.m = m)) + RateAt(Tail(ps), m)

Conserved == ended => /\ SumParts(parts) = SumRates(src.rates)
                      /\ \A n \in 1..Len(src.rates) :
                            RateAt(parts, src.rates[n].m) = src.rates[n].f
DistinctIds == \A m, n \in 1..Len(parts) : m # n => parts[m].id # parts[n].id
NoZeroFault == src.kind = "fault" => \A n \in 1..Len(parts) : parts[n].rates[1].nz
OnePerItem == ended => Len(parts) = Cardinality({n \in 1..Items : ~Skips(n)})
Inherited == \A n \in 1..Len(parts) : parts[n].rest = src.rest
=============================================================================
