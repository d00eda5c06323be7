------------------------------- MODULE Monitor -------------------------------
(* The performance monitor (openquake.commonlib.parallel.PerformanceMonitor):*)
(* a block of code is measured between a reading at its start and one at its *)
(* end, over a list of processes, some of which may become unreadable.       *)
(*                                                                           *)
(* procs: the processes still watched, in order.  A reading is a function    *)
(* from process to a number, or a negative one where there is nothing to     *)
(* read: the access is denied, or the process has ended.                     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES procs, first, mem, exc, phase, hooks

mvars == <<procs, first, mem, exc, phase, hooks>>
Denied == -1
Gone == -2
Unreadable == {Denied, Gone}

Watch(pids) == /\ procs = pids
               /\ first = <<>>
               /\ mem = <<>>
               /\ exc = ""
               /\ phase = "out"
               /\ hooks = 0
Readable(rd, ps) == SelectSeq(ps, LAMBDA p : rd[p] \notin Unreadable)

Enter(rd) ==
    /\ phase = "out"
    /\ procs' = Readable(rd, procs)
    /\ first' = rd
    /\ exc' = ""
    /\ phase' = "in"
    /\ UNCHANGED <<mem, hooks>>
Exit(rd, how) ==
    /\ phase = "in"
    /\ procs' = Readable(rd, procs)
    /\ mem' = [n \in 1..Len(procs') |-> rd[procs'[n]] - first[procs'[n]]]
    /\ exc' = how
    /\ hooks' = hooks + 1
    /\ phase' = "out"
    /\ UNCHANGED first
=============================================================================
