------------------------------ MODULE TablesTrace ------------------------------
(* Executions of the real Table, replayed on the actions of Tables.          *)
EXTENDS Tables, TraceBase

VARIABLES k, i, verdict
vars == <<uniq, tab, idx, out, k, i, verdict>>

T == Traces[k]
Ev == T.events[i]

TraceInit == /\ k \in 1..Len(Traces)
             /\ uniq = T.uniq
             /\ Init
             /\ i = 1
             /\ verdict = "ok"

\* the specified effect of the logged operation
Do(e) == \/ e.op = "append" /\ Append1(e.rec)
         \/ e.op = "insert" /\ Insert(e.pos, e.rec)
         \/ e.op = "replace" /\ Replace(e.pos, e.rec)
         \/ e.op \in {"delete", "pop"} /\ Delete(e.pos)
         \/ e.op = "reverse" /\ Reverse
         \/ e.op = "remove" /\ Remove(e.rec)
         \/ e.op = "extend" /\ Extend(e.recs)
         \/ /\ e.op = "new"     \* a new table with the given records
            /\ LET x == ExtendTo(<<>>, EmptyIdx(uniq), e.recs) IN
               IF x.out = "ok"
               THEN tab' = x.tab /\ idx' = x.idx /\ out' = "ok" /\ UNCHANGED uniq
               ELSE Refuse(x.out)

Judge(e) == FirstFailing(<<
    <<"outcome-of-" \o e.op \o "-is-" \o e.out \o "-expected-" \o out', e.out = out'>>,
    <<"content-after-" \o e.op \o "-" \o e.out, e.rows = tab'>>,
    <<"length-after-" \o e.op \o "-" \o e.out, e.len = Len(tab')>>,
    <<"lookup-after-" \o e.op \o "-" \o e.out,
      \A n \in 1..Len(e.keys) : e.found[n] = FoundIn(idx', e.keys[n])>> >>)

Step == /\ verdict = "ok"
        /\ i <= Len(T.events)
        /\ Do(Ev)
        /\ verdict' = Judge(Ev)
        /\ i' = i + 1
        /\ k' = k

Finish == /\ verdict # "ok" \/ i = Len(T.events) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<uniq, tab, idx, out, k, i>>

TraceNext == Step \/ Finish
=============================================================================
