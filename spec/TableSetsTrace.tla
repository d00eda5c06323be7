---------------------------- MODULE TableSetsTrace ----------------------------
(* Executions of the real TableSet, replayed on the actions of TableSets.    *)
EXTENDS TableSets, TraceBase

VARIABLES k, i, verdict

T == Traces[k]

TraceInit == /\ k \in 1..Len(Traces)
             /\ schema = T.schema
             /\ Init
             /\ i = 1
             /\ verdict = "ok"

Do(e) == \/ e.op = "insert" /\ Insert(e.t, e.rec)
         \/ e.op = "insert_all" /\ InsertAll(e.recs)
         \/ e.op = "delete" /\ Delete(e.t, e.pos)

Name(t) == schema[t].name
\* looking for a record by primary key
Lookup(ts, t, key) == SelectSeq(ts[t], LAMBDA r : Key(r, schema[t].uniq[1]) = key)

\* the specified successors among which the logged outcome must be
Step ==
    /\ verdict = "ok"
    /\ i <= Len(T.events)
    /\ LET e == T.events[i] IN
       \/ /\ Do(e)
          /\ out' = e.out
          /\ verdict' = FirstFailing(<<
               <<"tables-of-the-set", e.names = [t \in Types |-> Name(t)]>>,
               <<"content-after-" \o e.op \o "-" \o e.out, e.tabs = tabs'>>,
               <<"record-found-after-" \o e.op \o "-" \o e.out, \A n \in 1..Len(e.keys) :
                    e.found[n] = Lookup(tabs', e.keys[n].t, e.keys[n].key)>>,
               <<"nonempty-tables-in-definition-order",
                 e.iter = LET n == NonEmpty(tabs') IN [j \in 1..Len(n) |-> Name(n[j])]>> >>)
       \/ /\ \/ e.op = "insert" /\ e.out \notin
                  (LET w == Refusals(tabs, e.t, e.rec) IN IF w = {} THEN {"ok"} ELSE w)
             \/ e.op = "insert_all" /\ e.out \notin
                  (LET w == Bulk(tabs, e.recs).why IN IF w = {} THEN {"ok"} ELSE w)
             \/ e.op = "delete" /\ e.out #
                  (IF e.pos \in 1..Len(tabs[e.t]) THEN "ok" ELSE "IndexError")
          /\ verdict' = "outcome-of-" \o e.op \o "-cannot-be-" \o e.out
          /\ UNCHANGED svars
    /\ i' = i + 1
    /\ k' = k

Finish == /\ verdict # "ok" \/ i = Len(T.events) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<schema, tabs, out, k, i>>

TraceNext == Step \/ Finish
=============================================================================
