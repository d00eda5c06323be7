--------------------------- MODULE RecordTypesTrace ---------------------------
(* Histories of real record types: after each operation every type, every    *)
(* record and a new table of each type are asked everything.                 *)
EXTENDS RecordTypes, TraceBase

VARIABLES k, i, verdict

T == Traces[k]

TraceInit == /\ k \in 1..Len(Traces)
             /\ types = <<>> /\ recs = <<>> /\ clock = 0 /\ out = "ok"
             /\ i = 1
             /\ verdict = "ok"

Set(s) == {s[n] : n \in 1..Len(s)}
Body(b) == [bases |-> b.bases, own |-> b.own, uniq |-> Set(b.uniq), extra |-> Set(b.extra)]

Do(e) == \/ e.op = "define" /\ Define(Body(e.body))
         \/ e.op = "check" /\ AddCheck(e.t, e.of)
         \/ e.op = "make" /\ Make(e.t, e.args, e.named)

RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Joined(Tail(s))

RECURSIVE Lines(_)
Lines(rs) == IF rs = <<>> THEN "" ELSE IF Len(rs) = 1 THEN Joined(rs[1].row)
             ELSE Joined(rs[1].row) \o "\n" \o Lines(Tail(rs))

\* a type: o is what was seen of it
TypeClauses(o, ty, rs) ==
    LET clash == FirstClash(rs) IN <<
    <<"fields-in-order-of-definition", o.names = Names(ty) /\ o.len = Len(ty.fields)>>,
    <<"unique-constraints-with-their-columns", Set(o.uniq) = ty.uniq /\ Len(o.uniq) = Cardinality(ty.uniq)>>,
    <<"table-refuses-exactly-the-clashes",
      o.table = IF clash = 0 THEN "ok" ELSE "KeyError">>,
    <<"table-finds-every-record-by-key",
      clash = 0 => /\ o.rows = [n \in 1..Len(rs) |-> rs[n].row]
                   /\ o.found = [n \in 1..Len(rs) |-> rs[n].row]>>,
    <<"table-valid-iff-its-records-are",
      clash = 0 => o.valid = \A n \in 1..Len(rs) : IsValid(rs[n])>>,
    <<"csv-text-of-a-table", clash = 0 => o.text = Lines(rs)>> >>

Agrees(answer, f, text) ==
    IF Accepts(f.rule, text) THEN answer.out = "ok" /\ Denotes(f.rule, text, answer.value)
    ELSE answer.out = "ValueError"

\* a record
RecClauses(o, r) == LET f == types[r.t].fields IN <<
    <<"every-text-in-its-column", o.row = r.row /\ o.byname = r.row /\ o.len = Len(f)>>,
    <<"csv-line-of-a-record", o.text = Joined(r.row)>>,
    <<"values-of-the-fields", /\ Len(o.attr) = Len(f)
                              /\ \A n \in 1..Len(f) : Agrees(o.attr[n], f[n], r.row[n])>>,
    <<"extractors-of-the-fields", /\ Len(o.extract) = Len(f)
                                  /\ \A n \in 1..Len(f) : Agrees(o.extract[n], f[n], r.row[n])>>,
    <<"keys-of-a-record", {<<o.keys[n].name, o.keys[n].key>> : n \in 1..Len(o.keys)}
                          = {<<u.name, KeyOf(r, u)>> : u \in types[r.t].uniq}>>,
    <<"valid-iff-columns-and-own-checks", o.valid = IsValid(r)>> >>

Invalid == SelectSeq([n \in 1..Len(recs) |-> n], LAMBDA n : Bad(recs[n]) # <<>>)

RECURSIVE AllOf(_, _)
AllOf(v, rest) == IF v # "ok" \/ rest = <<>> THEN v ELSE AllOf(FirstFailing(Head(rest)), Tail(rest))

Judge(e) ==
    LET v == FirstFailing(<<
            <<"outcome-of-" \o e.op \o "-is-" \o e.out \o "-expected-" \o out', e.out = out'>>,
            <<"number-of-types-and-records", Len(e.types) = Len(types') /\ Len(e.recs) = Len(recs')>> >>) IN
    v

\* the clauses are about the state reached
Look(e) ==
    LET v == AllOf("ok", [n \in 1..Len(types) |-> TypeClauses(e.types[n], types[n], OfType(n))]
                         \o [n \in 1..Len(recs) |-> RecClauses(e.recs[n], recs[n])]) IN
    Then(v, <<
    <<"search-finds-every-inconvertible-record-once",
      e.invalid = [n \in 1..Len(Invalid) |->
          LET r == recs[Invalid[n]]  bad == Bad(r) IN
          [row |-> Invalid[n] - 1, cols |-> [m \in 1..Len(bad) |-> types[r.t].fields[bad[m]].name]]]>> >>)

\* an operation is made, and then what was seen after it is judged
Step == /\ verdict = "ok"
        /\ i <= Len(T.events)
        /\ Do(T.events[i])
        /\ verdict' = (LET v == Judge(T.events[i]) IN IF v = "ok" THEN "look" ELSE v)
        /\ UNCHANGED <<i, k>>

Seen == /\ verdict = "look"
        /\ verdict' = Look(T.events[i])
        /\ i' = i + 1
        /\ UNCHANGED <<types, recs, clock, out, k>>

Finish == /\ verdict # "look"
          /\ verdict # "ok" \/ i = Len(T.events) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<types, recs, clock, out, k, i>>

TraceNext == Step \/ Seen \/ Finish
=============================================================================
