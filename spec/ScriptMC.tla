------------------------------ MODULE ScriptMC ------------------------------
EXTENDS Script, Json
CONSTANTS Paths, MaxRuns, MaxEdits
VARIABLES arch, hist
vars == <<arch, hist>>
\* two valid models and an invalid one
Small == << [kind |-> "gmfset", gmfs |-> << [imt |-> "PGA", rup |-> "", nodes |-> << <<"1", "2", "3">> >>] >>],
            [kind |-> "vuln", sets |-> << [id |-> "s", cat |-> "buildings", loss |-> "x", imt |-> "MMI",
               imls |-> <<"1", "2">>, funs |-> << [id |-> "f", dist |-> "LN", lr |-> <<"0", ".1">>,
                                                   cv |-> <<"0", "0">>] >>] >>],
            [kind |-> "gmfset", gmfs |-> << [imt |-> "??", rup |-> "", nodes |-> << <<"1", "x", "y">> >>] >>] >>
Prefix(n) == <<"p", "q", "r">>[n]
Valid(n) == n # 3
Init == arch = <<>> /\ hist = <<>>
Xml(n, out) == /\ arch' = AfterXml(arch, out, Small[n], Prefix(n))
               /\ hist' = Append(hist, [op |-> "xml", m |-> n, inp |-> "", out |-> out])
Has(a, p) == p \in DOMAIN a
Arch(inp, out) ==
    /\ Has(arch, inp) /\ inp # out
    /\ arch' = AfterArchive(arch, inp, out)
    /\ hist' = Append(hist, [op |-> "archive", m |-> 0, inp |-> inp, out |-> out])
\* somebody edits a table of the first model
GmfFile == "p__GmfData.csv"
Edited(v) == << C!Names("GmfData"), <<"0", "PGA", "", "1", "2", v>> >>
Count(op) == Cardinality({n \in 1..Len(hist) : hist[n].op = op})
Edit(p, v) ==
    /\ Has(arch, p) /\ GmfFile \in DOMAIN arch[p].csv /\ Count("edit") < MaxEdits
    /\ arch' = [arch EXCEPT ![p].csv[GmfFile] = Edited(v)]
    /\ hist' = Append(hist, [op |-> "edit", m |-> IF v = "x" THEN 1 ELSE 0, inp |-> p, out |-> ""])
Next == /\ Len(hist) < MaxRuns
        /\ \/ \E n \in 1..3, out \in Paths : Xml(n, out)
           \/ \E inp \in Paths, out \in Paths \cup {""} : Arch(inp, out)
           \/ \E p \in Paths, v \in {"7", "x"} : Edit(p, v)
View == <<arch, Len(hist), Count("edit"), IF hist = <<>> THEN <<>> ELSE <<hist[Len(hist)]>> >>

\* a document says what the model of its name said, perhaps as edited, and is
\* never made from invalid tables
Model(n, v) == IF n # 1 THEN Small[n] ELSE [Small[1] EXCEPT !.gmfs[1].nodes[1][3] = v]
Documents == \A p \in DOMAIN arch : \A x \in DOMAIN arch[p].xml :
    \E n \in 1..3, v \in {"3", "7"} :
        Valid(n) /\ x = Prefix(n) \o ".xml" /\ arch[p].xml[x] = M!Facts(Model(n, v))
\* the tables are those of the models, and hold invalid rows only with the
\* invalid one or when made invalid
Tables == \A p \in DOMAIN arch :
    /\ \A x \in DOMAIN arch[p].csv : \E n \in 1..3, v \in {"3", "7", "x"} :
         x \in DOMAIN CsvOf(Model(n, v), Prefix(n)) /\ arch[p].csv[x] = CsvOf(Model(n, v), Prefix(n))[x]
    /\ (Invalid(arch, p) > 0) = ("r" \in C!Groups(arch[p].csv)
         \/ (GmfFile \in DOMAIN arch[p].csv /\ arch[p].csv[GmfFile] = Edited("x")))
\* nothing is lost on a run, except by replacing a zip
Kept == [][\A p \in DOMAIN arch : p \in DOMAIN arch' /\
             (~(IsZip(p) /\ hist'[Len(hist')].op = "xml") =>
                /\ DOMAIN arch[p].csv \subseteq DOMAIN arch'[p].csv
                /\ DOMAIN arch[p].xml \subseteq DOMAIN arch'[p].xml)]_vars
\* all the groups are converted
AllConverted == hist # <<>> /\ hist[Len(hist)].op = "archive" =>
    LET e == hist[Len(hist)] IN
    Invalid(arch, e.inp) = 0 =>
        \A g \in C!Groups(arch[e.inp].csv) : (g \o ".xml") \in DOMAIN arch[Target(e.inp, e.out)].xml
\* and say what the tables say now
UpToDate == hist # <<>> /\ hist[Len(hist)].op = "archive" =>
    LET e == hist[Len(hist)] IN
    Invalid(arch, e.inp) = 0 =>
        \A g \in C!Groups(arch[e.inp].csv) :
            arch[Target(e.inp, e.out)].xml[g \o ".xml"] = DocOf(arch[e.inp].csv, g)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxRuns => PrintT("SCN " \o ToJson([runs |-> hist]))
=============================================================================
