----------------------------- MODULE MonitorTrace -----------------------------
(* Blocks run under a real monitor: the readings it was given and what it    *)
(* said afterwards.                                                          *)
EXTENDS Monitor, TraceBase

VARIABLES k, i, verdict
T == Traces[k]
TraceInit == /\ k \in 1..Len(Traces)
             /\ Watch([n \in 1..Len(T.pids) |-> n])
             /\ i = 1
             /\ verdict = "ok"

\* a block is entered (odd steps) and left (even steps)
B == T.blocks[(i + 1) \div 2]
JudgeEnter == FirstFailing(<<
    <<"entering-fails-with-" \o B.entered, B.entered = "ok">>,
    <<"the-monitor-itself-is-given-to-the-block", B.self>>,
    <<"exception-forgotten-at-entry", B.excin = "">> >>)
JudgeExit(m, how, n) == FirstFailing(<<
    <<"exception-hidden-or-changed", B.propagated = how>>,
    <<"exception-recorded", B.exc = how>>,
    <<"one-measure-per-readable-process", Len(B.mem) = Len(m)>>,
    <<"memory-difference", B.mem = m>>,
    <<"exit-hook-once-per-block", B.hooks = n>>,
    <<"exit-hook-sees-the-measures", B.hookmem = m /\ B.hookexc = how>>,
    <<"start-time", B.start = B.clock0>>,
    <<"duration", B.duration = B.clock1 - B.clock0>> >>)

Step == /\ verdict = "ok"
        /\ i <= 2 * Len(T.blocks)
        /\ IF i % 2 = 1
           THEN Enter(B.rd0) /\ verdict' = JudgeEnter
           ELSE Exit(B.rd1, B.how) /\ verdict' = JudgeExit(mem', B.how, hooks')
        /\ i' = i + 1
        /\ k' = k
Finish == /\ verdict # "ok" \/ i = 2 * Len(T.blocks) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<mvars, k, i>>
TraceNext == Step \/ Finish
=============================================================================
