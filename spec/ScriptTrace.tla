----------------------------- MODULE ScriptTrace -----------------------------
(* Histories of runs of the real conversion script, and of edits of the      *)
(* tables between them; after each, everything on the disk was recorded.     *)
EXTENDS Script, TraceBase
VARIABLES k, i, arch, verdict
T == Traces[k]
Ev == T.events[i]
Range(q) == {q[n] : n \in 1..Len(q)}
OneOf(S) == IF S = {} THEN "nothing" ELSE CHOOSE x \in S : TRUE
AsMap(list) == [x \in {list[n].name : n \in 1..Len(list)} |->
                  list[CHOOSE n \in 1..Len(list) : list[n].name = x].val]
\* what is on the disk after the event
Disk == TLCEval([p \in {Ev.disk[n].path : n \in 1..Len(Ev.disk)} |->
          LET d == Ev.disk[CHOOSE n \in 1..Len(Ev.disk) : Ev.disk[n].path = p]
              x == AsMap(d.xml) IN
          [csv |-> AsMap(d.csv), xml |-> [y \in DOMAIN x |-> Range(x[y])]]])

\* what is printed about the invalid rows
Prefix(p, q) == Len(p) <= Len(q) /\ \A n \in 1..Len(p) : p[n] = q[n]
OfGroup(files, g) == SelectSeq(Ev.found, LAMBDA x : x.name \in C!GroupFiles(files, g))
Plainly(q) == [n \in 1..Len(q) |-> [rt |-> C!TypeOf(q[n].name), row |-> q[n].row, cols |-> q[n].cols]]
Printed(files) ==
    LET all == C!AllBad(files, TRUE)
        total == C!SumLen(all, DOMAIN all)
        n == C!Reported(total, Ev.limit) IN
    Then(FirstFailing(<< <<"found-in-an-unknown-file",
                           \A j \in 1..Len(Ev.found) : Ev.found[j].name \in C!Tabular(files)>>,
           <<"number-printed-is-" \o ToString(Len(Ev.found)), Len(Ev.found) = n>>,
           <<"number-in-the-exit-message", n \in Range(Ev.counts)>> >>),
      << <<"rows-or-columns-printed", \A g \in C!Groups(files) : Prefix(Plainly(OfGroup(files, g)), all[g])>>,
         <<"stopped-inside-several-groups", Cardinality({g \in C!Groups(files) :
             OfGroup(files, g) # <<>> /\ Len(OfGroup(files, g)) < Len(all[g])}) <= 1>>,
         <<"name-of-a-column", \A j \in 1..Len(Ev.found) : LET x == Ev.found[j] IN
             x.fields = [c \in 1..Len(x.cols) |-> C!Names(C!TypeOf(x.name))[x.cols[c]]]>> >>)
Outcome(bad) == <<"outcome-is-" \o Ev.out \o "-expected-" \o (IF bad THEN "exit" ELSE "ok"),
                  Ev.out = IF bad THEN "exit" ELSE "ok">>

\* the archives that are not the target are unaltered
OthersKept(path) == <<
    <<"archives", DOMAIN Disk = DOMAIN arch \cup {path}>>,
    <<"another-archive-altered", \A p \in DOMAIN arch \ {path} : p \in DOMAIN Disk /\ Disk[p] = arch[p]>> >>

\* tables of a model: the order of the locations, and of the costs and
\* occupancies is free, and so are the identifiers of the locations
SameRows(rt, a, b) == IF rt \in {"Location", "Cost", "Occupancy"}
                      THEN Len(a) = Len(b) /\ Range(a) = Range(b) ELSE a = b
JudgeXml ==
    LET m == T.models[Ev.m]
        prefix == T.prefixes[Ev.m]
        want == CsvOf(m, prefix)
        base == IF IsZip(Ev.path) THEN NoFiles ELSE At(arch, Ev.path) IN
    Then(FirstFailing(OthersKept(Ev.path)),
      LET d == Disk[Ev.path]
          missing == DOMAIN want \ DOMAIN d.csv
          extra == DOMAIN d.csv \ (DOMAIN want \cup DOMAIN base.csv) IN
      << <<"no-table-" \o OneOf(missing), missing = {}>>,
         <<"unexpected-file-" \o OneOf(extra), extra = {}>>,
         <<"documents-altered", d.xml = base.xml>>,
         <<"other-tables-altered", \A x \in DOMAIN base.csv \ DOMAIN want :
              x \in DOMAIN d.csv /\ d.csv[x] = base.csv[x]>>,
         <<"tables-of-the-model", missing = {} => LET
              t == M!Full(m, [rt \in M!Stored(m) |-> SubSeq(d.csv[C!FileName(prefix, rt)], 2,
                                                  Len(d.csv[C!FileName(prefix, rt)]))])
              seen == IF m.kind = "exp" THEN M!Canon(t) ELSE t IN
              /\ m.kind = "exp" => M!LocsOk(t)
              /\ \A rt \in M!Stored(m) : SameRows(rt, seen[rt], M!Rows(m)[rt])
              /\ \A x \in DOMAIN want : d.csv[x] # <<>> /\ d.csv[x][1] = C!Names(C!TypeOf(x))>>,
         Outcome(Invalid(Disk, Ev.path) > 0),
         <<"invalid-rows", Invalid(Disk, Ev.path) > 0 => Printed(d.csv) = "ok">> >>)
JudgeArchive ==
    LET bad == Invalid(arch, Ev.inp) > 0
        o == Target(Ev.inp, Ev.path) IN
    IF bad THEN Then(FirstFailing(<< Outcome(TRUE), <<"archives-altered", Disk = arch>> >>),
                     << <<"printed", Printed(arch[Ev.inp].csv) = "ok">> >>)
    ELSE Then(FirstFailing(<< Outcome(FALSE) >> \o OthersKept(o)),
      LET d == Disk[o]
          base == At(arch, o)
          want == Docs(arch[Ev.inp].csv)
          missing == DOMAIN want \ DOMAIN d.xml
          extra == DOMAIN d.xml \ (DOMAIN want \cup DOMAIN base.xml)
          wrong == {x \in DOMAIN want : x \notin DOMAIN d.xml \/ d.xml[x] # want[x]} IN
      << <<"no-document-" \o OneOf(missing), missing = {}>>,
         <<"unexpected-document-" \o OneOf(extra), extra = {}>>,
         <<"document-" \o OneOf(wrong), wrong = {}>>,
         <<"other-documents-altered", \A x \in DOMAIN base.xml \ DOMAIN want : d.xml[x] = base.xml[x]>>,
         <<"tables-altered", d.csv = base.csv>> >>)
\* why the printed lines are wrong
Detail(v) == IF v = "printed" THEN Printed(arch[Ev.inp].csv)
             ELSE IF v = "invalid-rows" THEN Printed(Disk[Ev.path].csv) ELSE v
Judge == CASE Ev.out \notin {"ok", "exit"} -> "outcome-is-" \o Ev.out
           [] Ev.op = "edit" -> "ok"
           [] Ev.op = "xml" -> Detail(JudgeXml)
           [] OTHER -> Detail(JudgeArchive)
TraceInit == k \in 1..Len(Traces) /\ i = 1 /\ arch = <<>> /\ verdict = "ok"
Step == /\ verdict = "ok" /\ i <= Len(T.events)
        /\ LET v == Judge IN
           IF v = "ok" THEN i' = i + 1 /\ arch' = Disk /\ UNCHANGED <<k, verdict>>
           ELSE Say(k, i, Ev.op \o ":" \o v) /\ verdict' = v /\ UNCHANGED <<k, i, arch>>
Accept == /\ verdict = "ok" /\ i = Len(T.events) + 1
          /\ Say(k, i, "ok") /\ verdict' = "said" /\ UNCHANGED <<k, i, arch>>
TraceNext == Step \/ Accept
=============================================================================
