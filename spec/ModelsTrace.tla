----------------------------- MODULE ModelsTrace -----------------------------
(* Histories of conversions made by the real code on one archive.  T.models   *)
(* are the models, each under its own prefix; the events are                  *)
(*   from:   a model converted to tables in the archive                       *)
(*   to:     the tables of one model converted back (as a node)               *)
(*   toall:  all the groups of tables converted back to documents             *)
(*   direct: a model converted in memory, without archive                     *)
(*   chain:  the node converted back is converted again to tables, elsewhere  *)
EXTENDS Models, TraceBase
VARIABLES k, i, stored, verdict
T == Traces[k]
Ev == T.events[i]
M == T.models[Ev.m]
OneOf(S) == IF S = {} THEN "nothing" ELSE CHOOSE x \in S : TRUE
SameFacts(m, facts) ==
    LET missing == Facts(m) \ RangeOf(facts)
        extra == RangeOf(facts) \ Facts(m)
    IN << <<"lost-" \o OneOf(missing), missing = {}>>,
          <<"added-" \o OneOf(extra), extra = {}>>,
          <<"repeated-facts", Len(facts) = Cardinality(RangeOf(facts))>> >>
\* the order of the locations, and of the costs and occupancies, is free
SameRows(rt, a, b) == IF rt \in {"Location", "Cost", "Occupancy"}
                      THEN Len(a) = Len(b) /\ RangeOf(a) = RangeOf(b) ELSE a = b
\* the first table that differs
TablesOk(m, files) ==
    LET full == Full(m, files)
        seen == IF m.kind = "exp" /\ LocsOk(full) THEN Canon(full) ELSE full
        bad == {rt \in Stored(m) : ~SameRows(rt, seen[rt], Rows(m)[rt])}
    IN << <<"location-identifiers", m.kind = "exp" => LocsOk(full)>>,
          <<"rows-of-" \o OneOf(bad), bad = {}>> >>
FilesOk(m, files) ==
    LET seen == DOMAIN files
    IN << <<"no-table-" \o OneOf(Stored(m) \ seen), Stored(m) \subseteq seen>>,
          <<"unexpected-table-" \o OneOf(seen \ Stored(m)), seen \subseteq Stored(m)>> >>
Tables(m, files) == Then(FirstFailing(FilesOk(m, files)), TablesOk(m, files))
And(v, w) == IF v # "ok" THEN v ELSE w
\* the tables of all the models stored so far are unaltered
RECURSIVE Others(_)
Others(n) == IF n = 0 THEN "ok"
             ELSE IF Ev.all[n].m \notin stored \cup {Ev.m} THEN "tables-of-a-model-never-stored"
             ELSE And(Others(n - 1), Tables(T.models[Ev.all[n].m], Ev.all[n].files))
RECURSIVE Documents(_)
Documents(n) == IF n = 0 THEN "ok"
                ELSE And(Documents(n - 1), FirstFailing(SameFacts(T.models[Ev.docs[n].m], Ev.docs[n].facts)))
Ok == FirstFailing(<< <<"outcome-is-" \o Ev.out, Ev.out = "ok">> >>)
Judge ==
    CASE Ev.op = "from" -> And(And(Ok, FirstFailing(<<
            <<"groups-of-tables", {Ev.all[n].m : n \in 1..Len(Ev.all)} = stored \cup {Ev.m}>>,
            <<"model-altered", Ev.unaltered>> >>)), And(Others(Len(Ev.all)), FirstFailing(<<
            <<"tables-of-a-valid-model-are-invalid", Ev.invalid = 0>> >>)))
      [] Ev.op \in {"to", "direct"} -> And(Ok, FirstFailing(SameFacts(M, Ev.facts)))
      [] Ev.op = "toall" -> And(And(Ok, FirstFailing(<<
            <<"documents-written", {Ev.docs[n].m : n \in 1..Len(Ev.docs)} = stored>>,
            <<"documents-reported", RangeOf(Ev.names) = RangeOf(Ev.expected)
                                    /\ Len(Ev.names) = Len(Ev.expected)>> >>)), Documents(Len(Ev.docs)))
      [] OTHER -> And(Ok, Tables(M, Ev.files))
TraceInit == k \in 1..Len(Traces) /\ i = 1 /\ stored = {} /\ verdict = "ok"
Step == /\ verdict = "ok" /\ i <= Len(T.events)
        /\ LET v == Judge IN
           IF v = "ok" THEN /\ i' = i + 1 /\ UNCHANGED <<k, verdict>>
                            /\ stored' = IF Ev.op = "from" THEN stored \cup {Ev.m} ELSE stored
           ELSE Say(k, i, Ev.op \o ":" \o v) /\ verdict' = v /\ UNCHANGED <<k, i, stored>>
Accept == /\ verdict = "ok" /\ i = Len(T.events) + 1
          /\ Say(k, i, "ok") /\ verdict' = "said" /\ UNCHANGED <<k, i, stored>>
TraceNext == Step \/ Accept
=============================================================================
