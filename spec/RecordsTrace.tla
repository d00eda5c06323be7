----------------------------- MODULE RecordsTrace -----------------------------
(* Histories of a real record: after each operation everything that can be   *)
(* asked of it is logged.                                                    *)
EXTENDS Records, TraceBase

VARIABLES k, i, verdict

T == Traces[k]

TraceInit == /\ k \in 1..Len(Traces)
             /\ typ = T.typ
             /\ row = <<>>
             /\ out = "ok"
             /\ i = 1
             /\ verdict = "ok"

Do(e) == \/ e.op = "set" /\ Assign(e.key, e.value)
         \/ e.op = "new" /\ row' = e.row /\ out' = "ok" /\ UNCHANGED typ

\* the logged answers against a row (e: the event, r: the row, w: its width)
Names == [n \in Cols |-> typ.cols[n].name]
Bad(r) == SelectSeq([n \in Cols |-> n], LAMBDA n : ~Accepts(typ.cols[n].rule, r[n]))
Checks(r) == \A n \in 1..Len(typ.checks) :
    LET c == typ.checks[n]  x == r[c.of[1]]  y == r[c.of[2]] IN
    CASE c.c = "together" -> (x = "") = (y = "") [] c.c = "differ" -> x # y

Judge(e, r) ==
    LET bad == Bad(r) IN FirstFailing(<<
    <<"outcome-of-" \o e.op \o "-is-" \o e.out \o "-expected-" \o out', e.out = out'>>,
    <<"content-after-" \o e.op \o "-" \o e.out, e.now = r>>,
    <<"field-names-in-order", e.names = Names>>,
    <<"column-valid-iff-convertible",
      \A n \in Cols : LET ok == Accepts(typ.cols[n].rule, r[n]) IN
        e.colvalid[n] = <<ok, ok>>>>,
    <<"attribute-iff-convertible",
      \A n \in Cols : IF Accepts(typ.cols[n].rule, r[n])
                      THEN e.attr[n].out = "ok" /\ Denotes(typ.cols[n].rule, r[n], e.attr[n].value)
                      ELSE e.attr[n].out = "ValueError">>,
    <<"valid-iff-all-columns-and-checks", e.valid = (bad = <<>> /\ Checks(r))>>,
    <<"cast-lists-exactly-the-bad-columns",
      e.errors = [n \in 1..Len(bad) |-> <<typ.cols[bad[n]].name, bad[n] - 1>>]>>,
    <<"cast-gives-either-values-or-errors", e.cast = IF bad = <<>> THEN "values" ELSE "errors">>,
    <<"to-tuple-agrees-with-cast", e.totuple = IF bad = <<>> THEN "same" ELSE "InvalidRecord">>,
    <<"values-in-column-order",
      bad = <<>> => /\ Len(e.values) = Width
                    /\ \A n \in Cols : Denotes(typ.cols[n].rule, r[n], e.values[n])>> >>)

Step == /\ verdict = "ok"
        /\ i <= Len(T.events)
        /\ Do(T.events[i])
        /\ verdict' = Judge(T.events[i], row')
        /\ i' = i + 1
        /\ k' = k

Finish == /\ verdict # "ok" \/ i = Len(T.events) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<typ, row, out, k, i>>

TraceNext == Step \/ Finish
=============================================================================
