--------------------------------- MODULE Pool ---------------------------------
(* A task manager (openquake.commonlib.parallel.TaskManager, map_reduce):    *)
(* tasks are submitted, run somewhere, complete in any order, and are        *)
(* collected one by one into an accumulator, with a progress report.         *)
(*                                                                           *)
(* A task is [id, name, fails, val].  A manager is a record                  *)
(*   mode   "seq" (distribution disabled) or "pool"                          *)
(*   pend   tasks submitted and not yet collected, in order of submission    *)
(*   ran    identifiers of the tasks the function was applied to             *)
(*   done   identifiers in order of completion (pool only)                   *)
(*   phase  "idle", "collecting", "waiting" (collecting without looking at   *)
(*          the values) or "failed"                                          *)
(*   told   whether the number of tasks has been reported                    *)
(*   n      results aggregated in this collection                            *)
(*   acc    the accumulator: the sequence of the values aggregated           *)
(*   pct    the last percentage reported;  due: one to report now, or -1     *)
EXTENDS Integers, Sequences, FiniteSets

New(mode) == [mode |-> mode, pend |-> <<>>, ran |-> {}, done |-> <<>>, phase |-> "idle",
              told |-> FALSE, n |-> 0, acc |-> <<>>, pct |-> 0, due |-> -1]

Range(s) == {s[x] : x \in 1..Len(s)}
Ids(m) == {m.pend[x].id : x \in 1..Len(m.pend)}
TaskOf(m, id) == m.pend[CHOOSE x \in 1..Len(m.pend) : m.pend[x].id = id]
Total(m) == Len(m.pend)
Collecting(m) == m.phase \in {"collecting", "waiting"}

\* the order in which results are collected
Order(m) == IF m.mode = "seq" THEN [x \in 1..Len(m.pend) |-> m.pend[x].id] ELSE m.done
Available(m) == m.n < Len(Order(m)) /\ Order(m)[m.n + 1] \in m.ran
NextTask(m) == TaskOf(m, Order(m)[m.n + 1])

Percent(k, total) == IF k = total THEN 100 ELSE (100 * k) \div total

\* ------------------------------------------------------------- transitions
CanSubmit(m) == m.phase = "idle"
Submit(m, t) == [m EXCEPT !.pend = Append(@, t)]

\* the function is applied (by a worker, or in process)
CanRun(m, id) == id \in Ids(m) /\ id \notin m.ran
Run(m, id) == [m EXCEPT !.ran = @ \cup {id}]

CanComplete(m, id) == m.mode = "pool" /\ id \in m.ran /\ id \notin Range(m.done)
Complete(m, id) == [m EXCEPT !.done = Append(@, id)]

CanStart(m) == m.phase = "idle"
Start(m, how, acc0) == [m EXCEPT !.phase = how, !.told = FALSE, !.n = 0, !.acc = acc0,
                                 !.pct = 0, !.due = -1]

CanTell(m) == Collecting(m) /\ ~m.told /\ m.n = 0
Tell(m) == [m EXCEPT !.told = TRUE]

\* one result goes into the accumulator
CanAgg(m) == Collecting(m) /\ m.told /\ m.due = -1 /\ Available(m) /\ ~NextTask(m).fails
Agg(m) == LET p == Percent(m.n + 1, Total(m)) IN
          [m EXCEPT !.n = @ + 1,
                    !.acc = Append(@, NextTask(m).val),
                    !.due = IF p > m.pct THEN p ELSE -1]

CanReport(m) == Collecting(m) /\ m.due # -1
Report(m) == [m EXCEPT !.pct = m.due, !.due = -1]

\* the result at hand is that of a failed task
CanFail(m) == Collecting(m) /\ m.told /\ m.due = -1 /\ Available(m) /\ NextTask(m).fails
Fail(m) == [m EXCEPT !.phase = "failed"]

\* the aggregation function raises an error on the result at hand
CanBoom(m) == m.phase = "collecting" /\ CanAgg(m)
Boom(m) == [m EXCEPT !.phase = "failed"]

CanReturn(m) == Collecting(m) /\ m.told /\ m.due = -1 /\ m.n = Total(m)
Return(m) == [m EXCEPT !.phase = "idle", !.pend = <<>>, !.done = <<>>]

\* ------------------------------------------------------- what must be true
EachOnce(m) == Collecting(m) => Len(m.acc) >= m.n /\ m.n <= Total(m)
NoFailedResult(m) ==
    Collecting(m) => \A x \in 1..m.n : ~TaskOf(m, Order(m)[x]).fails
ProgressSound(m) == Collecting(m) =>
    /\ m.pct \in 0..100
    /\ (m.pct = 100 \/ m.due = 100) => m.n = Total(m)
    /\ (m.n < Total(m) /\ m.due = -1 /\ m.n > 0) => m.pct = Percent(m.n, Total(m))
=============================================================================
