-------------------------- MODULE SourceGroupsTrace --------------------------
(* Recorded histories of the real code: reading models, filtering groups,     *)
(* generating blocks (to the end or not), building groups.  After every       *)
(* operation all the groups made so far are observed.                         *)
EXTENDS SourceGroups, TraceBase

VARIABLES k, i, pool, verdict

T == Traces[k]
Ev == T.events[i]

Acc == {Ev.acc[n] : n \in 1..Len(Ev.acc)}

\* the source model as it is in the file
FileSources == [n \in 1..Len(Ev.file) |-> Ev.file[n].s]
Uncert(s) == LET m == {n \in 1..Len(Ev.unc) : Ev.unc[n].root = s.root}
             IN IF m = {} THEN [shift |-> 0, trt |-> None]
                ELSE [shift |-> Ev.unc[CHOOSE n \in m : TRUE].shift,
                      trt |-> Ev.unc[CHOOSE n \in m : TRUE].trt]
Dups == {n \in 1..Len(Ev.file) : \E m \in 1..n - 1 : Ev.file[m].id = Ev.file[n].id}
FirstDup == MinOf(Dups)
Read == [n \in 1..Len(FileSources) |-> Applied(FileSources[n], Uncert(FileSources[n]))]
Roots(ss) == [n \in 1..Len(ss) |-> ss[n].root]

\* what is seen of a source
Seen(s) == [root |-> s.root, t |-> s.t, trt |-> s.trt, mags |-> s.mags,
            loc |-> s.loc, rup |-> IF s.t = "area" THEN None ELSE Ruptures(s)]
SeenAll(ss) == [n \in 1..Len(ss) |-> Seen(ss[n])]

Expected ==
    CASE Ev.op = "parse" -> IF Dups # {} THEN pool ELSE pool \o GroupsOf(Read)
      [] Ev.op = "filter" -> Append(pool, GroupOf(pool[Ev.i].trt, Pick(pool[Ev.i].srcs, Acc)))
      [] Ev.op = "gen" -> [pool EXCEPT ![Ev.i] = IF Ev.out = "ok" THEN Generated(@, Acc, Ev.d) ELSE @]
      \* abandoned while the last block was built: the parts are in place
      [] Ev.op = "abandon" -> [pool EXCEPT ![Ev.i] = Abandoned(
             IF Len(Ev.pool) >= Ev.i /\ Ev.pool[Ev.i].srcs = SeenAll(@.srcs)
             THEN @ ELSE Generated(@, Acc, Ev.d))]
      [] Ev.op = "new" -> Append(pool, GroupOf(pool[Ev.i].trt,
                              [n \in 1..Len(Ev.at) |-> pool[Ev.i].srcs[Ev.at[n]]]))
      [] Ev.op = "update" -> [pool EXCEPT ![Ev.i] = Added(@, pool[Ev.j].srcs[Ev.p])]
      [] OTHER -> pool

Outcome == CASE Ev.op = "parse" /\ Dups # {} -> "DuplicateID"
             [] OTHER -> "ok"

SeenBlocks(bs) == [n \in 1..Len(bs) |-> [ps |-> SeenAll(bs[n]), w |-> Total(Weights(bs[n]))]]
\* the blocks seen, matched with the parts that are expected in order
Blocks == Ev.blocks
Offset(n) == Total([m \in 1..n - 1 |-> Len(Blocks[m].ps)])
GenParts == WithRuptures(AllParts(pool[Ev.i].srcs, Acc, Ev.d))
AsParts(n) == SubSeq(GenParts, Offset(n) + 1, Offset(n) + Len(Blocks[n].ps))
SeenFlat == Flat([n \in 1..Len(Blocks) |-> Blocks[n].ps])

JudgeBlocks == Then(FirstFailing(<<
    <<"blocks-nonempty", \A n \in 1..Len(Blocks) : Blocks[n].ps # <<>> >>,
    <<"parts-of-the-accepted-sources-in-order",
      IF Ev.op = "gen" THEN SeenFlat = SeenAll(GenParts)
      ELSE Len(SeenFlat) <= Len(GenParts)
           /\ SeenFlat = SeenAll(SubSeq(GenParts, 1, Len(SeenFlat)))>> >>), <<
    <<"weight-is-the-ruptures", \A n \in 1..Len(Blocks) :
          Blocks[n].w = Total(Weights(AsParts(n)))>>,
    <<"block-within-the-limit", \A n \in 1..Len(Blocks) :
          Len(Blocks[n].ps) = 1 \/ ~Heavy(AsParts(n), Ev.max, Len(pool[Ev.i].srcs))>> >>)

\* uncertainties: once for each source, in order, before the group is made
Contains(x, y) == \E n \in 1..(Len(x) - Len(y) + 1) : SubSeq(x, n, n + Len(y) - 1) = y
JudgeParse == FirstFailing(<<
    <<"uncertainties-applied-once-to-each-source", Dups = {} =>
        /\ Len(Ev.applied) = Len(FileSources)
        /\ RangeOf(Ev.applied) = RangeOf(Roots(FileSources))>>,
    <<"names-the-duplicate", Dups # {} => \E n \in Dups : Contains(Ev.msg, Ev.file[n].id)>>,
    <<"number-of-groups", Ev.out = "ok" => Ev.made = Cardinality(Regions(Read))>> >>)

JudgeGroups(gs) == Then(FirstFailing(<<
    <<"groups", Len(Ev.pool) = Len(gs)>> >>), <<
    <<"regions-and-order", \A n \in 1..Len(gs) : Ev.pool[n].trt = gs[n].trt>>,
    <<"sources-of-the-group", \A n \in 1..Len(gs) : Ev.pool[n].srcs = SeenAll(gs[n].srcs)>>,
    <<"magnitude-range", \A n \in 1..Len(gs) :
         Ev.pool[n].min = gs[n].min /\ Ev.pool[n].max = gs[n].max>>,
    <<"rupture-count", \A n \in 1..Len(gs) :
         gs[n].nrup # Unknown => Ev.pool[n].nrup = gs[n].nrup>>,
    <<"filtered-counters", \A n \in 1..Len(gs) :
         gs[n].tot # Unknown => Ev.pool[n].filt = gs[n].filt /\ Ev.pool[n].tot = gs[n].tot>> >>)

Judge ==
    LET first == FirstFailing(<<
            <<"outcome-is-" \o Ev.out \o "-expected-" \o Outcome, Ev.out = Outcome>> >>)
        special == IF Ev.out # "ok" /\ Ev.op # "parse" THEN "ok"
                   ELSE CASE Ev.op = "parse" -> JudgeParse
                          [] Ev.op \in {"gen", "abandon"} -> JudgeBlocks
                          [] Ev.op = "less" -> FirstFailing(<<
                               <<"order-of-groups", Ev.res = Before(pool[Ev.i], pool[Ev.j])>> >>)
                          [] OTHER -> "ok"
    IN IF first # "ok" THEN first ELSE IF special # "ok" THEN special
       ELSE JudgeGroups(Expected)

TraceInit == k \in 1..Len(Traces) /\ i = 1 /\ pool = <<>> /\ verdict = "ok"
Step == /\ verdict = "ok" /\ i <= Len(T.events)
        /\ LET v == Judge IN
           IF v = "ok" THEN pool' = Expected /\ i' = i + 1 /\ UNCHANGED <<k, verdict>>
           ELSE /\ Say(k, i, Ev.op \o ":" \o v)
                /\ verdict' = v /\ UNCHANGED <<k, i, pool>>
Accept == /\ verdict = "ok" /\ i = Len(T.events) + 1
          /\ Say(k, i, "ok") /\ verdict' = "said" /\ UNCHANGED <<k, i, pool>>
TraceNext == Step \/ Accept
=============================================================================
