----------------------------- MODULE CsvTablesMC -----------------------------
EXTENDS CsvTables, Json
CONSTANTS Prefixes, Kinds,   \* the record types used
          MaxRows,           \* in a file
          MaxFiles, MaxOps
VARIABLES files, header, hist
vars == <<files, header, hist>>

\* rows of a type: a good one, another good one, bad ones
Good(rt) ==
    CASE rt = "DiscreteVulnerabilitySet" -> {<<"s", "buildings", "x", "PGA">>, <<"r", "population", "", "SA(0.1)">>}
      [] rt = "DiscreteVulnerability" -> {<<"s", "f", "LN">>, <<"r", "f", "LN">>}
      [] rt = "GmfSet" -> {<<"1", "50">>, <<"2">>}
      [] rt = "Location" -> {<<"1", "10", "20">>, <<"2", "10", "-20">>}
Bad(rt) ==
    CASE rt = "DiscreteVulnerabilitySet" -> {<<"q", "people", "x", "SA(">>}
      [] rt = "DiscreteVulnerability" -> {}
      [] rt = "GmfSet" -> {<<"x", "50">>, <<"3", "y">>}
      [] rt = "Location" -> {<<"3", "190", "100">>, <<"-1", "0", "0">>}
RowsOf(rt) == Good(rt) \cup Bad(rt)
RECURSIVE SeqsOf(_, _)
SeqsOf(S, n) == IF n = 0 THEN {<<>>}
                ELSE SeqsOf(S, n - 1) \cup {Append(q, x) : q \in {z \in SeqsOf(S, n - 1) : Len(z) = n - 1}, x \in S}
Headers(rt) == {Names(rt), <<"id">>}

O(op) == [op |-> op, prefix |-> "", rt |-> "", name |-> "", rows |-> <<>>, limit |-> -1]
Sessions == UNION {
    {[O("session") EXCEPT !.prefix = p, !.rows = [n \in 1..Len(q) |-> [rt |-> rt, row |-> Pad(rt, q[n])]]] :
        q \in SeqsOf(RowsOf(rt), MaxRows) \ {<<>>}} : p \in Prefixes, rt \in Kinds}
Puts == UNION {
    {[O("put") EXCEPT !.name = FileName(p, rt), !.rows = <<h>> \o q] :
        q \in SeqsOf(RowsOf(rt), MaxRows), h \in Headers(rt)} : p \in Prefixes, rt \in Kinds}
    \cup {[O("put") EXCEPT !.name = x, !.rows = <<<<"?">>>>] : x \in {"readme.txt", "a__Nothing.csv"}}
Fits(op) == LET f == IF op.op = "session" THEN AfterSession(files, header, op.prefix, op.rows)
                     ELSE Put(files, op.name, op.rows) IN
            /\ Cardinality(DOMAIN f) <= MaxFiles
            /\ \A g \in Groups(f) : ~Mixed(f, g)
Init == files = <<>> /\ header \in BOOLEAN /\ hist = <<>>
Do(op) == /\ Len(hist) < MaxOps /\ Fits(op)
          /\ files' = IF op.op = "session" THEN AfterSession(files, header, op.prefix, op.rows)
                      ELSE Put(files, op.name, op.rows)
          /\ hist' = Append(hist, op) /\ UNCHANGED header
Next == \E op \in Sessions \cup Puts : Do(op)
View == <<files, header, Len(hist)>>

\* what a session wrote is read back
ReadBack == hist # <<>> /\ hist[Len(hist)].op = "session" =>
    LET op == hist[Len(hist)] IN
    \A rt \in WrittenTypes(op.rows) :
        /\ ReadProblem(files, header, op.prefix, rt) = "ok"
        /\ ReadRows(files, header, op.prefix, rt) = OfType(op.rows, rt)
\* the groups divide the files that follow the convention
Divide == /\ UNION {GroupFiles(files, g) : g \in Groups(files)} = Tabular(files)
          /\ \A g, h \in Groups(files) : g # h => GroupFiles(files, g) \cap GroupFiles(files, h) = {}
          /\ \A x \in DOMAIN files : x \in {"readme.txt", "a__Nothing.csv"} => x \notin Tabular(files)
\* an invalid row is reported, once, and no valid one
EveryBadOnce == \A g \in Groups(files) :
    LET found == BadOfGroup(files, header, g) IN
    /\ \A x \in GroupFiles(files, g) :
         \A n \in 1..Len(Rows(files, header, x, TypeOf(x))) :
            LET row == Rows(files, header, x, TypeOf(x))[n]
                hits == {k \in 1..Len(found) : found[k].rt = TypeOf(x) /\ found[k].row = n - 1} IN
            IF (\A rt \in Present(files, g) : ReadProblem(files, header, g, rt) = "ok") /\
               \E c \in 1..Len(row) : ~Accepts(Fields(TypeOf(x))[c].rule, row[c])
            THEN Cardinality(hits) = 1
            ELSE (hits = {} \/ AnyBadHeader(files, header))
    /\ \A k \in 1..Len(found) : found[k].cols # <<>>
    /\ \A j, k \in 1..Len(found) : j < k /\ found[j].rt = found[k].rt => found[j].row < found[k].row
\* a file that does not follow the convention changes nothing
Aside == \A x \in DOMAIN files \ Tabular(files) :
    LET rest == [y \in DOMAIN files \ {x} |-> files[y]] IN
    /\ Groups(rest) = Groups(files)
    /\ Total(rest, header) = Total(files, header)
    /\ \A p \in Prefixes : ChoiceProblem(rest, p) = ChoiceProblem(files, p)
\* a table set without problems has keys that identify its rows
KeysIdentify == \A g \in Groups(files) : SetProblems(files, header, g) = {} =>
    \A rt \in Present(files, g) : \A cols \in Keys(rt) :
        LET rows == ReadRows(files, header, g, rt) IN
        Cardinality({At(rows[n], cols) : n \in 1..Len(rows)}) = Len(rows)
Emit == Len(hist) = MaxOps => PrintT("SCN " \o ToJson([header |-> header, ops |-> hist]))

\* the tables of the specification, for whoever makes up scenarios
SchemaInit == Init /\ header
SchemaNext == UNCHANGED vars
EmitSchema == PrintT("SCN " \o ToJson([types |-> [c \in Converters |-> Types(c)],
    fields |-> [rt \in AllTypes |-> Fields(rt)],
    keys |-> [rt \in AllTypes |-> Keys(rt)], refers |-> [rt \in AllTypes |-> Refers(rt)]]))
=============================================================================
