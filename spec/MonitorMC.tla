------------------------------ MODULE MonitorMC ------------------------------
EXTENDS Monitor, TLC, Json
CONSTANTS NP, Blocks, MaxRead
VARIABLE hist
P == 1..NP
Readings == [P -> -2..MaxRead]
\* what has ended stays so
May(rd) == hist # <<>> => \A p \in P : hist[Len(hist)][p] = Gone => rd[p] = Gone
MCInit == Watch([n \in P |-> n]) /\ hist = <<>>
MCNext == /\ Len(hist) < 2 * Blocks
          /\ \E rd \in Readings :
             /\ May(rd)
             /\
               \/ Enter(rd) /\ hist' = Append(hist, rd)
               \/ \E how \in {"", "boom"} : Exit(rd, how) /\ hist' = Append(hist, rd)
InSeq(x, s) == \E n \in 1..Len(s) : s[n] = x
\* a measure is of one process, readable at both ends
Measured == (phase = "out" /\ hooks > 0) =>
    LET a == hist[Len(hist) - 1]
        b == hist[Len(hist)] IN
    /\ Len(mem) = Len(procs)
    /\ \A n \in 1..Len(procs) : /\ a[procs[n]] >= 0 /\ b[procs[n]] >= 0
                                /\ mem[n] = b[procs[n]] - a[procs[n]]
    /\ \A p \in P : InSeq(p, procs) <=> \A h \in 1..Len(hist) : hist[h][p] >= 0
OncePerBlock == hooks = Len(hist) \div 2
InOrder == \A n \in 1..Len(procs) - 1 : procs[n] < procs[n + 1]

\* every pattern of denials, for the replay
EnumInit == /\ Watch(<<>>)
            /\ hist \in [1..2 * Blocks -> SUBSET P]
EnumNext == FALSE /\ UNCHANGED <<mvars, hist>>
Emit == PrintT("SCN " \o ToJson([denied |-> [n \in 1..2 * Blocks |-> [p \in P |-> p \in hist[n]]]]))
=============================================================================
