----------------------------- MODULE RefusalTrace -----------------------------
(* A refused operation leaves no trace at all.                               *)
(*                                                                           *)
(* The machine is the most general one with that property: its state is what *)
(* can be observed (content and lookups); an accepted operation moves it     *)
(* anywhere, a refused one is a stuttering step.  Moreover the object is     *)
(* deterministic in its accepted history: the log holds, for each operation, *)
(* what the same operation does on a twin that has only seen the operations  *)
(* accepted so far, and the two must agree for ever after.                   *)
EXTENDS TraceBase

VARIABLES obs, k, i, verdict

T == Traces[k]

TraceInit == /\ k \in 1..Len(Traces)
             /\ obs = T.start
             /\ i = 1
             /\ verdict = "ok"

Accepted(e) == e.out = "ok" /\ obs' = e.obs
Refused(e) == e.out # "ok" /\ UNCHANGED obs

Judge(e) == FirstFailing(<<
    <<"refused-" \o e.op \o "-changed-what-is-observed", e.out # "ok" => e.obs = obs>>,
    <<"outcome-of-" \o e.op \o "-depends-on-refused-operations", e.out = e.twin.out>>,
    <<"effect-of-" \o e.op \o "-depends-on-refused-operations", e.obs = e.twin.obs>> >>)

Step == /\ verdict = "ok"
        /\ i <= Len(T.events)
        /\ verdict' = Judge(T.events[i])
        /\ Accepted(T.events[i]) \/ Refused(T.events[i])
        /\ i' = i + 1
        /\ k' = k

Finish == /\ verdict # "ok" \/ i = Len(T.events) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<obs, k, i>>

TraceNext == Step \/ Finish
=============================================================================
