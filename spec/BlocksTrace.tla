------------------------------ MODULE BlocksTrace ------------------------------
(* Blocks yielded by the real code against the machine and its properties.   *)
EXTENDS Blocks, TraceBase

VARIABLES k, verdict

T == Traces[k]

TraceInit == /\ k \in 1..Len(Traces)
             /\ verdict = "ok"
             /\ items = T.items
             /\ max = T.max
             /\ Init

IsPrefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
Blk == [n \in 1..Len(T.blocks) |->
            [p \in 1..Len(T.blocks[n].ns) |-> items[T.blocks[n].ns[p]]]]

\* block_splitter: the machine has run to its end
JudgeSplit == FirstFailing(<<
    <<"outcome-is-" \o T.out \o "-expected-" \o status, T.out = status>>,
    <<"weight-is-the-sum", \A n \in 1..Len(Blk) : T.blocks[n].w = WeightOf(Blk[n])>>,
    <<"blocks-nonempty", NonEmpty(Blk)>>,
    <<"items-kept-in-order", IF T.out = "end" THEN Concat(Blk) = Positive(items)
                             ELSE IsPrefix(Concat(Blk), Positive(items))>>,
    <<"homogeneous", Homogeneous(Blk)>>,
    <<"bounded", Bounded(Blk, max)>>,
    <<"closed-for-a-reason", Maximal(Blk, max)>>,
    <<"as-the-machine", IF T.out = "end" THEN Blk = done ELSE IsPrefix(Blk, done \o <<open>>)>> >>)

\* the weights are in units of 1/q
JudgeHint == LET m == T.q * CeilDiv(WeightOf(items), T.q * T.hint)
                 unit == T.q = 1 /\ UnitSingle(items) IN FirstFailing(<<
    <<"definitions-agree", T.q = 1 => m = HintMax(items, T.hint)>>,
    <<"outcome-is-" \o T.out, T.out = "end">>,
    <<"weight-is-the-sum", \A n \in 1..Len(Blk) : T.blocks[n].w = WeightOf(Blk[n])>>,
    <<"blocks-nonempty", NonEmpty(Blk)>>,
    <<"items-kept-in-order", Concat(Blk) = Positive(items)>>,
    <<"homogeneous", Homogeneous(Blk)>>,
    <<"bounded-by-hint", Bounded(Blk, m)>>,
    <<"at-most-hint-blocks", unit => Len(Blk) <= T.hint>>,
    <<"at-least-half-hint-blocks",
      unit /\ Len(items) >= T.hint => 2 * Len(Blk) >= T.hint>> >>)

Finish == /\ verdict = "ok"
          /\ T.call = "hint" \/ status # "run"
          /\ Say(k, pos, IF T.call = "hint" THEN JudgeHint ELSE JudgeSplit)
          /\ verdict' = "said"
          /\ UNCHANGED <<k, items, max, pos, open, done, status>>

TraceNext == \/ /\ verdict = "ok" /\ T.call = "split" /\ Next /\ UNCHANGED <<k, verdict>>
             \/ Finish
=============================================================================
