---------------------------- MODULE ConversionTrace ----------------------------
(* Histories of conversions made by the real code.  A trace has the           *)
(* descriptions, the parameters of the converters and the steps, each one     *)
(* conversion [d, p, out, msg, attrs, unchanged] and, at the end, the         *)
(* attributes of the same object again (later conversions must not alter it). *)
EXTENDS Conversion, TraceBase
VARIABLES k, i, verdict
T == Traces[k]
Ev == T.events[i]
D == T.descs[Ev.d]
P == T.pars[Ev.p]
Contains(x, y) == \E n \in 1..(Len(x) - Len(y) + 1) : SubSeq(x, n, n + Len(y) - 1) = y
Missing == Hazard(D, P) \ RangeOf(Ev.attrs)
Extra == RangeOf(Ev.attrs) \ Hazard(D, P)
OneOf(S) == IF S = {} THEN "nothing" ELSE CHOOSE x \in S : TRUE
Judge ==
    IF Faults(D, P) # {}
    THEN FirstFailing(<<
        <<"outcome-is-" \o Ev.out \o "-expected-" \o OneOf(Faults(D, P)), Ev.out \in Faults(D, P)>>,
        <<"error-names-the-source", IsSource(D) => Contains(Ev.msg, D.id) /\ Contains(Ev.msg, D.name)>>,
        <<"description-unchanged", Ev.unchanged>> >>)
    ELSE Then(FirstFailing(<<
        <<"outcome-is-" \o Ev.out, Ev.out = "ok">> >>), <<
        <<"attribute-missing-" \o OneOf(Missing), Missing = {}>>,
        <<"attribute-unexpected-" \o OneOf(Extra), Extra = {}>>,
        <<"description-unchanged", Ev.unchanged>>,
        <<"result-altered-later", RangeOf(Ev.final) = RangeOf(Ev.attrs)>> >>)
TraceInit == k \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
Step == /\ verdict = "ok" /\ i <= Len(T.events)
        /\ LET v == Judge IN
           IF v = "ok" THEN i' = i + 1 /\ UNCHANGED <<k, verdict>>
           ELSE Say(k, i, D.t \o ":" \o v) /\ verdict' = v /\ UNCHANGED <<k, i>>
Accept == /\ verdict = "ok" /\ i = Len(T.events) + 1
          /\ Say(k, i, "ok") /\ verdict' = "said" /\ UNCHANGED <<k, i>>
TraceNext == Step \/ Accept
=============================================================================
