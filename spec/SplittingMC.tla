----------------------------- MODULE SplittingMC -----------------------------
EXTENDS Splitting, Json
CONSTANTS MaxBins, MaxPoints, Rates
Rate(m, f) == [m |-> m, r |-> f, f |-> 12 * f, nz |-> f > 0]
RateSeqs == UNION {[1..n -> Rates] : n \in 1..MaxBins}
MCInit == /\ \E q \in RateSeqs, k \in {"fault", "area", "other"}, p \in 1..MaxPoints :
                /\ (k # "area" => p = 1)
                /\ src = [kind |-> k, id |-> "s", rates |-> [n \in 1..Len(q) |-> Rate(n, q[n])],
                          grid |-> IF k = "area" THEN [n \in 1..p |-> <<n, 0>>] ELSE <<>>,
                          rest |-> {<<"trt", "x">>}]
          /\ Init
Emit == (visited = 0 /\ ~ended) => PrintT("SCN " \o ToJson(
    [kind |-> src.kind, rates |-> [n \in 1..Len(src.rates) |-> src.rates[n].r],
     points |-> Len(src.grid)]))
Stop == FALSE /\ UNCHANGED svars
=============================================================================
