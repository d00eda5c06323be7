------------------------------- MODULE Equality -------------------------------
(* Equality of records, tables and weighted sequences: same length and equal *)
(* items in the same order.  A thing is [kind, items]; the items of a table  *)
(* (or of a list of rows) are themselves sequences of texts.                 *)
EXTENDS TraceBase

RECURSIVE SameItems(_, _)
SameItems(x, y) ==
    IF x = <<>> \/ y = <<>> THEN x = y
    ELSE Head(x) = Head(y) /\ SameItems(Tail(x), Tail(y))

\* declaratively
Same(x, y) == Len(x) = Len(y) /\ \A n \in 1..Len(x) : x[n] = y[n]

VARIABLES k, verdict

T == Traces[k]

TraceInit == k \in 1..Len(Traces) /\ verdict = "ok"

Show(b) == IF b THEN "True" ELSE "False"

\* T: [a, b (kind, items), eq, ne, qe, en] the four comparisons as logged
Judge == LET s == SameItems(T.a.items, T.b.items) IN FirstFailing(<<
    <<"definitions-agree", s = Same(T.a.items, T.b.items)>>,
    <<T.a.kind \o "==" \o T.b.kind \o "-is-" \o T.eq, T.eq = Show(s)>>,
    <<T.a.kind \o "!=" \o T.b.kind \o "-is-" \o T.ne, T.ne = Show(~s)>>,
    <<"reversed-" \o T.a.kind \o "==" \o T.b.kind \o "-is-" \o T.qe, T.qe = Show(s)>>,
    <<"reversed-" \o T.a.kind \o "!=" \o T.b.kind \o "-is-" \o T.en, T.en = Show(~s)>> >>)

Finish == /\ verdict # "said"
          /\ Say(k, 1, Judge)
          /\ verdict' = "said"
          /\ UNCHANGED k
TraceNext == Finish
=============================================================================
