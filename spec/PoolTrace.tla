------------------------------ MODULE PoolTrace ------------------------------
(* What happened, in order: submissions, applications of the task function,  *)
(* completions, calls of the aggregation function, progress messages,        *)
(* returned values and exceptions, of one or several managers at once.       *)
EXTENDS Pool, TraceBase

VARIABLES k, i, ms, verdict

T == Traces[k]

\* the values of OQ_NO_DISTRIBUTE that disable the distribution
Off == {"1", "true", "TRUE", "True", "tRuE", "yes", "YES", "Yes", "yEs"}
ModeOf(env) == IF env \in Off THEN "seq" ELSE "pool"
TraceInit == /\ k \in 1..Len(Traces)
             /\ i = 1
             /\ ms = [x \in 1..T.managers |-> New(ModeOf(T.env))]
             /\ verdict = "ok"

\* waiting, results are taken silently up to the next progress message
RECURSIVE Quiet(_)
Quiet(m) == IF m.phase = "waiting" /\ CanAgg(m) THEN Quiet(Agg(m)) ELSE m

ErrClauses(m, e) ==
    IF ~CanFail(m) THEN <<<<"unexpected-error-" \o e.cls, FALSE>>>>
    ELSE LET id == NextTask(m).id IN <<
        <<"failure-is-a-RuntimeError", e.cls = "RuntimeError">>,
        <<"error-carries-the-name", id \in Range(e.names)>>,
        <<"error-carries-the-message", id \in Range(e.msgs)>>,
        <<"error-carries-the-traceback", e.tb>> >>

\* <<clauses, manager afterwards>>
On(m, e) ==
    CASE e.ev = "submit" ->
           << <<<<"submission-out-of-place", CanSubmit(m)>>>>,
              Submit(m, [id |-> e.id, name |-> e.name, fails |-> e.fails, val |-> e.val]) >>
      [] e.ev = "submitted" ->
           << <<<<"submission-fails-with-" \o e.out, e.out = "ok">>>>, m >>
      [] e.ev = "call" ->
           << <<<<"function-applied-to-unknown-arguments", e.id \in Ids(m)>>,
                <<"function-applied-twice", e.id \notin m.ran>>,
                <<"arguments-passed", e.id \in Ids(m) /\ e.ok>>>>,
              Run(m, e.id) >>
      [] e.ev = "complete" ->
           << <<<<"completion", CanComplete(m, e.id)>>>>, Complete(m, e.id) >>
      [] e.ev = "start" ->
           << <<<<"start", CanStart(m)>>>>, Start(m, e.how, e.acc) >>
      [] e.ev = "told" ->
           << <<<<"number-of-tasks-told-once-and-first", CanTell(m)>>,
                <<"number-of-tasks", Total(m) \in Range(e.ns)>>,
                <<"name-of-the-tasks", e.named>>>>, Tell(m) >>
      [] e.ev = "agg" ->
           << <<<<"nothing-collected-outside-a-collection", m.phase = "collecting">>,
                <<"number-of-tasks-told-first", m.told>>,
                <<"percentage-not-reported", m.due = -1>>,
                <<"more-results-than-tasks", m.n < Total(m)>>,
                <<"result-before-its-completion", Available(m)>>,
                <<"result-of-a-failed-task", CanAgg(m)>>,
                <<"accumulator", e.acc = m.acc>>,
                <<"next-result-in-order", CanAgg(m) /\ e.val = NextTask(m).val>>>>,
              IF CanAgg(m) THEN Agg(m) ELSE m >>
      [] e.ev = "aggboom" ->
           << <<<<"nothing-collected-outside-a-collection", m.phase = "collecting">>,
                <<"result-of-a-failed-task", CanBoom(m)>>,
                <<"accumulator", e.acc = m.acc>>,
                <<"next-result-in-order", CanBoom(m) /\ e.val = NextTask(m).val>>,
                <<"error-of-the-aggregation-hidden-or-changed", e.same>>>>, Boom(m) >>
      [] e.ev = "pct" ->
           LET q == Quiet(m) IN
           << <<<<"percentage-out-of-place", CanReport(q)>>,
                <<"percentage", e.p = q.due>>,
                <<"name-of-the-tasks", e.named>>>>, Report(q) >>
      [] e.ev = "return" ->
           LET q == Quiet(m) IN
           << <<<<"collection-ends-with-a-failed-task", ~CanFail(q)>>,
                <<"number-of-tasks-not-told", q.told>>,
                <<"percentage-not-reported", q.due = -1>>,
                <<"collection-ends-early", CanReturn(q)>>,
                <<"result", IF m.phase = "waiting" THEN e.value = Total(q) ELSE e.acc = q.acc>>>>,
              Return(q) >>
      [] e.ev = "raise" ->
           LET q == Quiet(m) IN << ErrClauses(q, e), Fail(q) >>

Step == /\ verdict = "ok"
        /\ i <= Len(T.events)
        /\ LET e == T.events[i] IN
             IF e.m \notin 1..T.managers
             THEN verdict' = e.ev \o "-of-nothing-submitted" /\ UNCHANGED ms
             ELSE LET r == On(ms[e.m], e) IN
                  /\ verdict' = FirstFailing(r[1])
                  /\ ms' = IF verdict' = "ok" THEN [ms EXCEPT ![e.m] = r[2]] ELSE ms
        /\ i' = i + 1
        /\ k' = k

Finish == /\ verdict # "ok" \/ i = Len(T.events) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<ms, k, i>>
TraceNext == Step \/ Finish
Sound == verdict = "ok" => \A x \in DOMAIN ms :
            EachOnce(ms[x]) /\ NoFailedResult(ms[x]) /\ ProgressSound(ms[x])
=============================================================================
