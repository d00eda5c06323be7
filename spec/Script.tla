------------------------------- MODULE Script -------------------------------
(* The conversion script.  The state is the archives on the disk: path ->    *)
(* [csv: name -> rows, xml: name -> facts]; what a run makes of them is a    *)
(* function of their contents alone.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
C == INSTANCE CsvTables
M == INSTANCE Models

NoFiles == [csv |-> <<>>, xml |-> <<>>]
IsZip(path) == C!EndsWith(path, ".zip")
At(arch, path) == IF path \in DOMAIN arch THEN arch[path] ELSE NoFiles

\* the model held by a group of tables
KindOf(files, g) ==
    LET conv == C!GroupConverter(files, g) IN
    CASE conv = "Vulnerability" -> "vuln" [] conv = "FragilityDiscrete" -> "fragd"
      [] conv = "FragilityContinuous" -> "fragc" [] conv = "Exposure" -> "exp"
      [] conv = "GmfCollection" -> IF "GmfCollection" \in C!Present(files, g) THEN "gmfcoll" ELSE "gmfset"
TablesOf(files, g) ==
    [rt \in C!RangeOf(C!Types(C!GroupConverter(files, g))) |->
        IF rt \in C!Present(files, g) THEN C!ReadRows(files, TRUE, g, rt) ELSE <<>>]
DocOf(files, g) == M!Facts(M!Back(KindOf(files, g), TablesOf(files, g)))
Docs(files) == [x \in {g \o ".xml" : g \in C!Groups(files)} |->
                    DocOf(files, SubSeq(x, 1, Len(x) - 4))]

\* the tables of a model
CsvOf(m, prefix) ==
    [x \in {C!FileName(prefix, rt) : rt \in M!Stored(m)} |->
        <<C!Names(C!TypeOf(x))>> \o M!Rows(m)[C!TypeOf(x)]]

\* a run on a document, and on an archive
AfterXml(arch, out, m, prefix) ==
    LET base == IF IsZip(out) THEN NoFiles ELSE At(arch, out) IN
    (out :> [csv |-> CsvOf(m, prefix) @@ base.csv, xml |-> base.xml]) @@ arch
Target(inp, out) == IF out = "" THEN inp ELSE out
Invalid(arch, path) == C!Total(At(arch, path).csv, TRUE)
AfterArchive(arch, inp, out) ==
    IF Invalid(arch, inp) > 0 THEN arch
    ELSE LET o == Target(inp, out)  base == At(arch, o) IN
         (o :> [csv |-> base.csv, xml |-> Docs(At(arch, inp).csv) @@ base.xml]) @@ arch
=============================================================================
