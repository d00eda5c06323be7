------------------------------ MODULE WSeqsTrace ------------------------------
(* Histories of real weighted sequences: after each operation the items and  *)
(* weight of every sequence of the pool and the whole order are logged.      *)
EXTENDS WSeqs, TraceBase

VARIABLES k, i, verdict

T == Traces[k]

TraceInit == k \in 1..Len(Traces) /\ Init /\ i = 1 /\ verdict = "ok"

Do(e) == \/ e.op = "append" /\ AppendTo(e.i, e.x, e.w)
         \/ e.op = "insert" /\ InsertIn(e.i, e.p, e.x, e.w)
         \/ e.op \in {"extend", "iadd"} /\ Extend(e.i, e.ps)
         \/ e.op = "add" /\ Add(e.i, e.j)
         \/ e.op = "merge" /\ Merge(e.is)
         \/ e.op = "new" /\ New(e.ps)

Only(ps) == [n \in 1..Len(ps) |-> ps[n][1]]

Judge(e, ss) == FirstFailing(<<
    <<e.op \o "-fails-with-" \o e.out, e.out = "ok">>,
    <<"number-of-sequences-after-" \o e.op, Len(e.seqs) = Len(ss)>>,
    <<"items-after-" \o e.op, \A n \in 1..Len(ss) : e.seqs[n].items = Only(ss[n].items)>>,
    <<"length-after-" \o e.op, \A n \in 1..Len(ss) : e.seqs[n].len = Len(ss[n].items)>>,
    <<"weight-after-" \o e.op, \A n \in 1..Len(ss) : e.seqs[n].weight = ss[n].weight>>,
    <<"order-is-by-weight", \A n, m \in 1..Len(ss) : e.lt[n][m] = (ss[n].weight < ss[m].weight)>>,
    <<"order-is-by-weight-reversed", \A n, m \in 1..Len(ss) : e.gt[n][m] = (ss[n].weight > ss[m].weight)>>,
    <<"sorted-by-weight",
      /\ Len(e.sorted) = Len(ss)
      /\ \A n \in 1..Len(ss) - 1 : ss[e.sorted[n]].weight <= ss[e.sorted[n + 1]].weight>> >>)

Step == /\ verdict = "ok"
        /\ i <= Len(T.events)
        /\ Do(T.events[i])
        /\ verdict' = Judge(T.events[i], seqs')
        /\ i' = i + 1
        /\ k' = k

Finish == /\ verdict # "ok" \/ i = Len(T.events) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<seqs, k, i>>

TraceNext == Step \/ Finish
=============================================================================
