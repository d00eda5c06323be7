-------------------------------- MODULE WSeqs --------------------------------
(* Weighted sequences (openquake.commonlib.general.WeightedSequence): a pool *)
(* of them, each with its items and a weight kept as a running total.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES seqs    \* a sequence of [items (pairs <<item, weight>>), weight]

Empty == [items |-> <<>>, weight |-> 0]

Norm(p, n) == LET j == IF p < 0 THEN p + n ELSE p IN
              IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j
Put(q, p, x, w) ==
    LET j == Norm(p, Len(q.items)) IN
    [items |-> SubSeq(q.items, 1, j) \o <<<<x, w>>>> \o SubSeq(q.items, j + 1, Len(q.items)),
     weight |-> q.weight + w]
RECURSIVE PutAll(_, _)
PutAll(q, ps) == IF ps = <<>> THEN q
                 ELSE PutAll(Put(q, Len(q.items), ps[1][1], ps[1][2]), Tail(ps))
Plus(q, r) == [items |-> q.items \o r.items, weight |-> q.weight + r.weight]
RECURSIVE MergeAll(_, _)
MergeAll(ss, is) == IF is = <<>> THEN Empty
                    ELSE LET n == Len(is) IN
                         Plus(MergeAll(ss, SubSeq(is, 1, n - 1)), ss[is[n]])

Init == seqs = <<Empty, Empty>>

AppendTo(i, x, w) == seqs' = [seqs EXCEPT ![i] = Put(@, Len(@.items), x, w)]
InsertIn(i, p, x, w) == seqs' = [seqs EXCEPT ![i] = Put(@, p, x, w)]
Extend(i, ps) == seqs' = [seqs EXCEPT ![i] = PutAll(@, ps)]
\* results of additions and merges join the pool
Add(i, j) == seqs' = Append(seqs, Plus(seqs[i], seqs[j]))
Merge(is) == seqs' = Append(seqs, MergeAll(seqs, is))
New(ps) == seqs' = Append(seqs, PutAll(Empty, ps))

RECURSIVE Sum(_)
Sum(ps) == IF ps = <<>> THEN 0 ELSE ps[1][2] + Sum(Tail(ps))
-----------------------------------------------------------------------------
WeightIsSum == \A i \in 1..Len(seqs) : seqs[i].weight = Sum(seqs[i].items)
Lighter(i, j) == seqs[i].weight < seqs[j].weight
=============================================================================
