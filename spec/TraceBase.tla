------------------------------ MODULE TraceBase ------------------------------
(* Shared by all the trace specifications: the recorded executions and the   *)
(* way a verdict is handed to the runner.  Every trace gets exactly one      *)
(* verdict, "ok" or the name of the clause of the specification it breaks.   *)
EXTENDS TLC, Sequences, Integers, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

\* printed on one line (a lone string is never wrapped by TLC)
Say(k, step, verdict) ==
    PrintT("VERDICT " \o ToString(k) \o " " \o ToString(step) \o " " \o verdict)

\* First failing clause of a sequence of <<name, holds>> pairs, or "ok".
RECURSIVE FirstFailing(_)
FirstFailing(clauses) ==
    IF clauses = <<>> THEN "ok"
    ELSE IF Head(clauses)[2] THEN FirstFailing(Tail(clauses))
    ELSE Head(clauses)[1]

\* Further clauses, looked at only when the first ones hold (so that they may
\* rely on them).
Then(v, clauses) == IF v # "ok" THEN v ELSE FirstFailing(clauses)
=============================================================================
