-------------------------------- MODULE PoolMC --------------------------------
(* One manager, up to MaxTasks tasks per collection of which any may fail,   *)
(* workers and collector interleaved in every way; and the enumeration of    *)
(* the histories to replay.                                                  *)
EXTENDS Pool, TLC, Json
CONSTANTS MaxTasks, MaxRounds, MayBoom
VARIABLES m, round, count

vars == <<m, round, count>>
MCInit == m \in {New("seq"), New("pool")} /\ round = 1 /\ count = 0

SubmitA == /\ CanSubmit(m) /\ Len(m.pend) < MaxTasks /\ round <= MaxRounds
           /\ count' = count + 1
           /\ \E f \in BOOLEAN :
                LET s == Submit(m, [id |-> count', name |-> "f", fails |-> f, val |-> count']) IN
                m' = IF m.mode = "seq" THEN Run(s, count') ELSE s
           /\ UNCHANGED round
RunA == /\ m.mode = "pool" /\ \E id \in Ids(m) : CanRun(m, id) /\ m' = Run(m, id)
        /\ UNCHANGED <<round, count>>
CompleteA == /\ \E id \in Ids(m) : CanComplete(m, id) /\ m' = Complete(m, id)
             /\ UNCHANGED <<round, count>>
StartA == /\ CanStart(m) /\ round <= MaxRounds
          /\ \E how \in {"collecting", "waiting"} : m' = Start(m, how, <<>>)
          /\ UNCHANGED <<round, count>>
TellA == CanTell(m) /\ m' = Tell(m) /\ UNCHANGED <<round, count>>
AggA == CanAgg(m) /\ m' = Agg(m) /\ UNCHANGED <<round, count>>
ReportA == CanReport(m) /\ m' = Report(m) /\ UNCHANGED <<round, count>>
FailA == CanFail(m) /\ m' = Fail(m) /\ UNCHANGED <<round, count>>
BoomA == MayBoom /\ CanBoom(m) /\ m' = Boom(m) /\ UNCHANGED <<round, count>>
ReturnA == CanReturn(m) /\ m' = Return(m) /\ round' = round + 1 /\ UNCHANGED count
Work == RunA \/ CompleteA \/ TellA \/ AggA \/ ReportA \/ FailA \/ BoomA \/ ReturnA
MCNext == SubmitA \/ StartA \/ Work
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(Work)

Sound == EachOnce(m) /\ NoFailedResult(m) /\ ProgressSound(m)
AccIsTheOrder == m.phase = "collecting" =>
    m.acc = [x \in 1..m.n |-> TaskOf(m, Order(m)[x]).val]
\* a percentage is reported once and they grow
Growing == [][m'.pct >= m.pct \/ m'.phase # m.phase]_vars
RanForGood == [][m.ran \subseteq m'.ran]_vars
\* a collection always ends: with all the results or with the failure
Ends == Collecting(m) ~> ~Collecting(m)
\* only a failing task or a failing aggregation prevents it
EndsWell == (~MayBoom /\ Collecting(m) /\ \A x \in 1..Len(m.pend) : ~m.pend[x].fails) ~> m.phase = "idle"

\* ----------------------------------------------------- histories to replay
Perms(n) == {p \in [1..n -> 1..n] : \A x, y \in 1..n : p[x] = p[y] => x = y}
Rounds(N, F) == UNION {{[fails |-> f, order |-> p, how |-> h] :
                          f \in [1..n -> F], p \in Perms(n), h \in {"collect", "wait"}} : n \in 0..N}
VARIABLE plan
EnumInit == /\ MCInit
            /\ \/ \E r \in Rounds(MaxTasks + 1, BOOLEAN) : plan = <<r>>
               \/ \E r \in Rounds(MaxTasks, {FALSE}), s \in Rounds(MaxTasks, BOOLEAN) : plan = <<r, s>>
EnumNext == FALSE /\ UNCHANGED <<vars, plan>>
Emit == PrintT("SCN " \o ToJson([mode |-> m.mode, rounds |-> plan]))
MCInit0 == MCInit /\ plan = <<>>
MCNext0 == MCNext /\ UNCHANGED plan
Spec0 == MCInit0 /\ [][MCNext0]_<<vars, plan>> /\ WF_vars(Work)
=============================================================================
