---------------------------- MODULE SplittingTrace ----------------------------
(* Parts yielded by the real code for a source, against the machine.          *)
(* Identifiers are texts; the grid may be visited in any order; shares of     *)
(* rates are rounded to the small unit.                                       *)
EXTENDS Splitting, TraceBase

VARIABLES k, verdict

T == Traces[k]
Rest(q) == {q[n] : n \in 1..Len(q)}

TraceInit == /\ k \in 1..Len(Traces) /\ verdict = "ok"
             /\ src = [kind |-> T.kind, id |-> T.id, rates |-> T.rates, grid |-> T.grid,
                       rest |-> Rest(T.rest)]
             /\ Init

Seen == T.parts
IsPrefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
Abs(x) == IF x < 0 THEN -x ELSE x
Points == {src.grid[n] : n \in 1..Len(src.grid)}
NearShare(q) == /\ Len(q) = Len(src.rates)
                /\ \A n \in 1..Len(q) :
                     /\ q[n].m = src.rates[n].m /\ q[n].nz = src.rates[n].nz
                     /\ Abs(q[n].f * Len(src.grid) - src.rates[n].f) <= Len(src.grid) + 1

Judge == Then(FirstFailing(<<
    <<"outcome-is-" \o T.out, T.out = "ok">>,
    <<"number-of-parts", Len(Seen) = Len(parts)>> >>), <<
    <<"rates-of-the-parts",
        CASE src.kind = "fault" -> \A n \in 1..Len(parts) : Seen[n].rates = parts[n].rates
          [] src.kind = "area" -> \A n \in 1..Len(parts) : NearShare(Seen[n].rates)
          [] OTHER -> Seen[1].rates = src.rates>>,
    <<"one-part-per-point", src.kind = "area" =>
        Points = {Seen[n].loc : n \in 1..Len(Seen)}>>,
    <<"distinct-identifiers", \A m, n \in 1..Len(Seen) : m # n => Seen[m].id # Seen[n].id>>,
    <<"identifiers-derived", \A n \in 1..Len(Seen) :
        IF src.kind = "other" THEN Seen[n].id = src.id ELSE IsPrefix(src.id, Seen[n].id)>>,
    <<"inherited-attributes", \A n \in 1..Len(Seen) : Rest(Seen[n].rest) = src.rest>>,
    <<"kind-of-the-parts", \A n \in 1..Len(Seen) :
        Seen[n].cls = (IF src.kind = "area" THEN "PointSource" ELSE T.cls)>>,
    <<"other-sources-are-returned-as-they-are", src.kind = "other" => Seen[1].same>>,
    <<"source-unchanged", T.after = T.before>> >>)

Finish == /\ verdict = "ok" /\ ended
          /\ Say(k, visited, Judge) /\ verdict' = "said"
          /\ UNCHANGED <<k, src, visited, parts, ended>>
TraceNext == (verdict = "ok" /\ Next /\ UNCHANGED <<k, verdict>>) \/ Finish
=============================================================================
