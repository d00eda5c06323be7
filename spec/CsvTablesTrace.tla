--------------------------- MODULE CsvTablesTrace ---------------------------
(* Histories of sessions of writing, of reading and of searching for invalid *)
(* rows, on a real archive of CSV files.                                     *)
EXTENDS CsvTables, TraceBase
VARIABLES k, i, st, verdict
T == Traces[k]
Ev == T.events[i]
AsFiles(list) == [x \in {list[n].name : n \in 1..Len(list)} |->
                    list[CHOOSE n \in 1..Len(list) : list[n].name = x].rows]
H == T.header
F == st.files
Iter(h) == st.iters[h]
Prefix(p, q) == Len(p) <= Len(q) /\ \A n \in 1..Len(p) : p[n] = q[n]
Upto(q, from, n) == SubSeq(q, from + 1, IF n < 0 THEN Len(q) ELSE Least(Len(q), from + n))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

IsOut(want) == <<"outcome-is-" \o Ev.out \o "-expected-" \o want, Ev.out = want>>
JudgeRead ==
    LET p == ReadProblem(F, H, Ev.prefix, Ev.rt) IN
    Then(FirstFailing(<< IsOut(p), <<"file-not-named",
            p = "InvalidFile" => FileName(Ev.prefix, Ev.rt) \in RangeOf(Ev.named)>> >>),
         << <<"rows-read", p = "ok" =>
                Ev.rows = Upto(ReadRows(F, H, Ev.prefix, Ev.rt), 0, Ev.n)>> >>)
JudgeTable ==
    LET ps == TableProblems(F, H, Ev.prefix, Ev.rt) IN
    Then(IF ps = {} THEN FirstFailing(<< IsOut("ok") >>)
         ELSE FirstFailing(<< <<"outcome-is-" \o Ev.out, Ev.out \in ps>> >>),
         << <<"rows-of-table", ps = {} => Ev.rows = ReadRows(F, H, Ev.prefix, Ev.rt)>> >>)
JudgeNext ==
    LET it == Iter(Ev.h)
        p == ReadProblem(F, H, it.prefix, it.rt) IN
    IF it.over THEN "ok" ELSE
    Then(FirstFailing(<< IsOut(p) >>),
         << <<"rows-read-later", p = "ok" =>
                Ev.rows = Upto(ReadRows(F, H, it.prefix, it.rt), it.pos, Ev.n)>> >>)
TheGroup == CHOOSE g \in Chosen(F, Ev.prefix) : TRUE
JudgeSet ==
    LET c == ChoiceProblem(F, Ev.prefix) IN
    IF c # "ok" THEN FirstFailing(<< IsOut(c) >>)
    ELSE LET ps == SetProblems(F, H, TheGroup) IN
         IF ps # {}
         THEN FirstFailing(<< <<"outcome-is-" \o Ev.out, Ev.out \in ps>>,
                <<"file-not-named", Ev.out = "InvalidFile" => \E x \in RangeOf(Ev.named) :
                    x \in GroupFiles(F, TheGroup) /\ BadHeader(F, H, x, TypeOf(x))>> >>)
         ELSE IF Ev.op = "node" THEN "ok"
         ELSE Then(FirstFailing(<< IsOut("ok"),
                <<"tables-are-of-another-converter",
                  DOMAIN Ev.tables = RangeOf(Types(GroupConverter(F, TheGroup)))>> >>),
              << <<"rows-of-the-tables", \A rt \in DOMAIN Ev.tables : Ev.tables[rt] =
                   IF rt \in Present(F, TheGroup) THEN ReadRows(F, H, TheGroup, rt) ELSE <<>>>> >>)

\* what is found in the files of a group
OfGroup(g) == SelectSeq(Ev.found, LAMBDA x : x.name \in GroupFiles(F, g))
Plainly(q) == [n \in 1..Len(q) |-> [rt |-> TypeOf(q[n].name), row |-> q[n].row, cols |-> q[n].cols]]
LineOf(x, c) == x.name \o "[" \o Names(TypeOf(x.name))[x.cols[c]] \o "]: " \o ToString(x.row)
                \o "," \o ToString(x.cols[c] - 1) \o ": "
JudgeInvalid ==
    LET bad == AnyBadHeader(F, H)
        all == AllBad(F, H)
        total == SumLen(all, DOMAIN all) IN
    IF Ev.out = "InvalidFile"
    THEN FirstFailing(<< <<"a-good-file-is-refused", bad>>,
            <<"file-not-named", \E x \in RangeOf(Ev.named) :
                x \in Tabular(F) /\ BadHeader(F, H, x, TypeOf(x))>> >>)
    ELSE IF bad /\ Ev.limit < 0 THEN FirstFailing(<< IsOut("InvalidFile") >>)
    ELSE Then(FirstFailing(<< IsOut("ok"),
              <<"found-in-an-unknown-file", \A n \in 1..Len(Ev.found) : Ev.found[n].name \in Tabular(F)>> >>),
      << <<"number-found-is-" \o ToString(Len(Ev.found)),
           Len(Ev.found) = IF bad THEN Ev.limit ELSE Reported(total, Ev.limit)>>,
         <<"rows-or-columns-found", \A g \in Groups(F) :
             Prefix(Plainly(OfGroup(g)), all[g])>>,
         <<"stopped-inside-several-groups", Cardinality({g \in Groups(F) :
             OfGroup(g) # <<>> /\ Len(OfGroup(g)) < Len(all[g])}) <= 1>>,
         <<"message", \A n \in 1..Len(Ev.found) : LET x == Ev.found[n] IN
             /\ Len(x.msg) = Len(x.cols)
             /\ \A c \in 1..Len(x.cols) : StartsWith(x.msg[c], LineOf(x, c))>>,
         <<"record-found", \A n \in 1..Len(Ev.found) : LET x == Ev.found[n]  rt == TypeOf(x.name) IN
             x.cells = Rows(F, H, x.name, rt)[x.row + 1]>> >>)

JudgeRaw == FirstFailing(<< <<"names-of-the-files", {Ev.files[n].name : n \in 1..Len(Ev.files)} = DOMAIN F>>,
                            <<"file-twice", Len(Ev.files) = Cardinality(DOMAIN F)>>,
                            <<"contents-of-the-files", AsFiles(Ev.files) = F>> >>)
JudgeCreate ==
    LET rows == [n \in 1..Len(Ev.given) |-> Pad(Ev.rt, Ev.given[n])] IN
    IF Duplicated(Ev.rt, rows) THEN FirstFailing(<< IsOut("KeyError") >>)
    ELSE FirstFailing(<< IsOut("ok"), <<"rows-of-table", Ev.rows = rows>> >>)
Judge ==
    CASE Ev.op \in {"session", "put", "iter", "drop"} -> FirstFailing(<< IsOut("ok") >>)
      [] Ev.op = "read" -> JudgeRead
      [] Ev.op = "table" -> JudgeTable
      [] Ev.op = "next" -> JudgeNext
      [] Ev.op \in {"set", "node"} -> JudgeSet
      [] Ev.op = "invalid" -> JudgeInvalid
      [] Ev.op = "raw" -> JudgeRaw
      [] Ev.op = "create" -> JudgeCreate
After ==
    CASE Ev.op = "session" -> [st EXCEPT !.files = AfterSession(F, H, Ev.prefix, Ev.written), !.iters = <<>>]
      [] Ev.op = "put" -> [st EXCEPT !.files = Put(F, Ev.name, Ev.given), !.iters = <<>>]
      [] Ev.op = "iter" -> [st EXCEPT !.iters = Append(@, [prefix |-> Ev.prefix, rt |-> Ev.rt, pos |-> 0, over |-> FALSE])]
      [] Ev.op = "next" -> [st EXCEPT !.iters[Ev.h].pos = @ + Len(Ev.rows),
                                           !.iters[Ev.h].over = @ \/ Ev.out # "ok"]
      [] OTHER -> st
TraceInit == /\ k \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
             /\ st = [files |-> AsFiles(Traces[k].init), iters |-> <<>>]
Step == /\ verdict = "ok" /\ i <= Len(T.events)
        /\ LET v == Judge IN
           IF v = "ok" THEN i' = i + 1 /\ st' = After /\ UNCHANGED <<k, verdict>>
           ELSE Say(k, i, Ev.op \o ":" \o v) /\ verdict' = v /\ UNCHANGED <<k, i, st>>
Accept == /\ verdict = "ok" /\ i = Len(T.events) + 1
          /\ Say(k, i, "ok") /\ verdict' = "said" /\ UNCHANGED <<k, i, st>>
TraceNext == Step \/ Accept
=============================================================================
