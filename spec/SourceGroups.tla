----------------------------- MODULE SourceGroups -----------------------------
(* Source models: reading a model into groups by tectonic region, filtering   *)
(* a group, splitting its sources and generating blocks of parts              *)
(* (openquake.commonlib.source: parse_source_model, SourceCollector,          *)
(* split_source).                                                             *)
(*                                                                            *)
(* A source is a record                                                       *)
(*   root  identity of the source of the file it is (a part of)               *)
(*   t     "point", "area", "simple", "complex" or "char"                     *)
(*   trt   tectonic region, a number in the order of the names                *)
(*   lo,hi range of its magnitudes                                            *)
(*   mags  the magnitudes of non-zero rate                                    *)
(*   k     nodal planes times depths (ruptures per magnitude and point)       *)
(*   loc   the location of a point source, else <<>>                          *)
(*   rect  <<x, y, width, height>> of an area source, else <<>>               *)
(*                                                                            *)
(* A group is [trt, srcs, min, max, nrup, filt, tot]; min = max = None when   *)
(* empty.  nrup, filt and tot are the counters of the last generation of      *)
(* blocks (Unknown while one was abandoned half way).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == -1
Unknown == -9

RangeOf(s) == {s[n] : n \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Pick(s, acc) == SelectSeq(s, LAMBDA x : x.root \in acc)

-----------------------------------------------------------------------------
(* Splitting *)

\* the grid of an area, row by row, with the given step
Grid(r, d) == [n \in 1..(((r[3] \div d) + 1) * ((r[4] \div d) + 1)) |->
                 LET cols == (r[3] \div d) + 1 IN
                 <<r[1] + d * ((n - 1) % cols), r[2] + d * ((n - 1) \div cols)>>]

Parts(s, d) ==
    CASE s.t \in {"simple", "complex"} ->
           [n \in 1..Len(s.mags) |->
              [s EXCEPT !.mags = <<s.mags[n]>>, !.lo = s.mags[n], !.hi = s.mags[n]]]
      [] s.t = "area" ->
           LET g == Grid(s.rect, d)
           IN [n \in 1..Len(g) |-> [s EXCEPT !.t = "point", !.loc = g[n], !.rect = <<>>]]
      [] OTHER -> <<s>>

Ruptures(s) == Len(s.mags) * (IF s.t = "point" THEN s.k ELSE 1)

-----------------------------------------------------------------------------
(* Groups *)
EmptyGroup(trt) == [trt |-> trt, srcs |-> <<>>, min |-> None, max |-> None,
                    nrup |-> 0, filt |-> 0, tot |-> 0]
Least(a, b) == IF a = None \/ b < a THEN b ELSE a
Most(a, b) == IF a = None \/ b > a THEN b ELSE a
Added(g, s) == [g EXCEPT !.srcs = Append(@, s), !.min = Least(@, s.lo), !.max = Most(@, s.hi)]
RECURSIVE AddAll(_, _)
AddAll(g, ss) == IF ss = <<>> THEN g ELSE AddAll(Added(g, Head(ss)), Tail(ss))
GroupOf(trt, ss) == AddAll(EmptyGroup(trt), ss)

Before(g, h) == \/ Len(g.srcs) < Len(h.srcs)
                \/ Len(g.srcs) = Len(h.srcs) /\ g.trt < h.trt
Ordered(gs) == \A m, n \in 1..Len(gs) : m < n => Before(gs[m], gs[n])

\* what a model reads as (no repeated identifier)
OfRegion(ss, trt) == SelectSeq(ss, LAMBDA x : x.trt = trt)
Regions(ss) == {ss[n].trt : n \in 1..Len(ss)}
GroupsOf(ss) == LET gs == {GroupOf(trt, OfRegion(ss, trt)) : trt \in Regions(ss)}
                IN CHOOSE q \in [1..Cardinality(gs) -> gs] :
                     RangeOf(q) = gs /\ Ordered(q)

\* an uncertainty shifts the magnitudes and may move the source elsewhere
Applied(s, u) == [s EXCEPT !.lo = @ + u.shift, !.hi = @ + u.shift,
                           !.mags = [n \in 1..Len(s.mags) |-> s.mags[n] + u.shift],
                           !.trt = IF u.trt = None THEN @ ELSE u.trt]

-----------------------------------------------------------------------------
(* Generating blocks: the limit for a group of n sources is max * n / (n+100) *)
AllParts(srcs, acc, d) == Flat([n \in 1..Len(Pick(srcs, acc)) |-> Parts(Pick(srcs, acc)[n], d)])
Rejected(srcs, acc) == Len(srcs) - Len(Pick(srcs, acc))
WithRuptures(ps) == SelectSeq(ps, LAMBDA p : Ruptures(p) > 0)
Weights(b) == [n \in 1..Len(b) |-> Ruptures(b[n])]
Heavy(b, max, n) == Total(Weights(b)) * (n + 100) > max * n

Generated(g, acc, d) ==
    LET ps == AllParts(g.srcs, acc, d)
    IN [g EXCEPT !.srcs = ps, !.nrup = Total(Weights(ps)),
                 !.filt = Len(ps), !.tot = Len(ps) + Rejected(g.srcs, acc)]
Abandoned(g) == [g EXCEPT !.nrup = Unknown, !.filt = Unknown, !.tot = Unknown]

IsBlocking(bs, g, acc, max, d) ==
    /\ \A n \in 1..Len(bs) : bs[n] # <<>>
    /\ Flat(bs) = WithRuptures(AllParts(g.srcs, acc, d))
    /\ \A n \in 1..Len(bs) : Len(bs[n]) = 1 \/ ~Heavy(bs[n], max, Len(g.srcs))
=============================================================================
