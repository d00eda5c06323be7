-------------------------------- MODULE Blocks --------------------------------
(* Splitting a sequence of weighted items of several kinds into blocks       *)
(* (openquake.commonlib.general.block_splitter).                             *)
(*                                                                           *)
(* A machine reads the items one at a time and keeps one open block.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    items,   \* the input, a sequence of [n, w, k] (identity, weight, kind)
    max,     \* the maximum weight
    pos,     \* how many items were read
    open,    \* the open block, a sequence of items
    done,    \* the blocks closed so far
    status   \* "run", "end" or "ValueError"
bvars == <<items, max, pos, open, done, status>>

RECURSIVE WeightOf(_)
WeightOf(b) == IF b = <<>> THEN 0 ELSE Head(b).w + WeightOf(Tail(b))
RECURSIVE Concat(_)
Concat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Concat(Tail(bs))
Positive(s) == SelectSeq(s, LAMBDA x : x.w > 0)

Init == pos = 0 /\ open = <<>> /\ done = <<>> /\ status = "run"

Item == items[pos + 1]
Fits(b, x) == b # <<>> /\ x.k = b[Len(b)].k /\ WeightOf(b) + x.w <= max

Fail == /\ status = "run"
        /\ max <= 0 \/ (pos < Len(items) /\ Item.w < 0)
        /\ status' = "ValueError"
        /\ UNCHANGED <<items, max, pos, open, done>>

Read == /\ status = "run" /\ max > 0
        /\ pos < Len(items) /\ Item.w >= 0
        /\ pos' = pos + 1
        /\ IF Item.w = 0 THEN UNCHANGED <<open, done>>
           ELSE IF Fits(open, Item)
           THEN open' = Append(open, Item) /\ UNCHANGED done
           ELSE /\ open' = <<Item>>
                /\ done' = IF open = <<>> THEN done ELSE Append(done, open)
        /\ UNCHANGED <<items, max, status>>

End == /\ status = "run" /\ max > 0 /\ pos = Len(items)
       /\ done' = IF open = <<>> THEN done ELSE Append(done, open)
       /\ open' = <<>>
       /\ status' = "end"
       /\ UNCHANGED <<items, max, pos>>

Next == Fail \/ Read \/ End

-----------------------------------------------------------------------------
(* What any list of blocks must satisfy to be the splitting of items *)
NonEmpty(bs) == \A n \in 1..Len(bs) : bs[n] # <<>>
Homogeneous(bs) == \A n \in 1..Len(bs) : \A p \in 1..Len(bs[n]) : bs[n][p].k = bs[n][1].k
Bounded(bs, m) == \A n \in 1..Len(bs) : Len(bs[n]) = 1 \/ WeightOf(bs[n]) <= m
\* a block is closed only for a reason
Maximal(bs, m) == \A n \in 1..Len(bs) - 1 :
    \/ bs[n + 1][1].k # bs[n][1].k
    \/ WeightOf(bs[n]) + bs[n + 1][1].w > m

Splitting(bs, s, m) == /\ NonEmpty(bs)
                       /\ Concat(bs) = Positive(s)
                       /\ Homogeneous(bs)
                       /\ Bounded(bs, m)
                       /\ Maximal(bs, m)

Correct == /\ Splitting(done \o (IF open = <<>> THEN <<>> ELSE <<open>>),
                        SubSeq(items, 1, pos), max)
           /\ status = "end" => Splitting(done, items, max)
ErrorIffBad == /\ status = "ValueError" => max <= 0 \/ \E n \in 1..Len(items) : items[n].w < 0
               /\ status = "end" => max > 0 /\ \A n \in 1..Len(items) : items[n].w >= 0

\* splitting by hint uses the maximum total/hint rounded up
CeilDiv(a, b) == -((-a) \div b)
HintMax(s, hint) == CeilDiv(WeightOf(s), hint)
UnitSingle(s) == \A n \in 1..Len(s) : s[n].w = 1 /\ s[n].k = s[1].k
HintCount == (status = "end" /\ UnitSingle(items) /\ items # <<>>) =>
    \A h \in 1..(Len(items) + 2) : max = HintMax(items, h) =>
        /\ Len(done) <= h
        /\ h <= Len(items) => 2 * Len(done) >= h
=============================================================================
