------------------------------ MODULE CsvTables ------------------------------
(* CSV files in an archive, grouped by prefix, and the tables in them: what  *)
(* is written, read, refused, and which of their rows are invalid.           *)
(*                                                                           *)
(* The state is the map of the files, name -> sequence of rows (sequences of *)
(* texts); when the manager has headers the first row is the header.         *)
EXTENDS Texts

R(name) == [r |-> name]
Opt(rule) == [r |-> "noneor", sub |-> rule]
Of(choices) == [r |-> "choice", of |-> choices]
Str == R("str")
Int1 == R("int")
Real == R("float")
PosReal == R("positivefloat")
Category == Of(<<"population", "buildings">>)
CostKinds == Of(<<"aggregated", "per_asset", "per_area">>)

\* the columns of every type of record
Fields(rt) ==
    CASE rt = "DiscreteVulnerabilitySet" ->
            <<[n |-> "vulnerabilitySetID", rule |-> Str], [n |-> "assetCategory", rule |-> Category],
              [n |-> "lossCategory", rule |-> Str], [n |-> "IMT", rule |-> R("IMTstr")]>>
      [] rt = "DiscreteVulnerability" ->
            <<[n |-> "vulnerabilitySetID", rule |-> Str], [n |-> "vulnerabilityFunctionID", rule |-> Str],
              [n |-> "probabilisticDistribution", rule |-> Str]>>
      [] rt = "DiscreteVulnerabilityData" ->
            <<[n |-> "vulnerabilitySetID", rule |-> Str], [n |-> "vulnerabilityFunctionID", rule |-> Str],
              [n |-> "IML", rule |-> Real], [n |-> "lossRatio", rule |-> Real],
              [n |-> "coefficientsVariation", rule |-> Real]>>
      [] rt = "FragilityDiscrete" ->
            <<[n |-> "format", rule |-> Of(<<"discrete">>)], [n |-> "description", rule |-> Str],
              [n |-> "limitStates", rule |-> R("namelist")]>>
      [] rt = "FFLimitStateDiscrete" -> <<[n |-> "limitState", rule |-> Str]>>
      [] rt = "FFSetDiscrete" ->
            <<[n |-> "ordinal", rule |-> Int1], [n |-> "taxonomy", rule |-> R("not_empty")],
              [n |-> "noDamageLimit", rule |-> Opt(PosReal)], [n |-> "IMT", rule |-> R("IMTstr")],
              [n |-> "imlUnit", rule |-> Str]>>
      [] rt = "FFDataDiscrete" ->
            <<[n |-> "limitState", rule |-> Str], [n |-> "ffs_ordinal", rule |-> Int1],
              [n |-> "iml", rule |-> Real], [n |-> "poe", rule |-> R("probability")]>>
      [] rt = "FragilityContinuous" ->
            <<[n |-> "format", rule |-> Of(<<"continuous">>)], [n |-> "description", rule |-> Str],
              [n |-> "limitStates", rule |-> R("namelist")]>>
      [] rt = "FFLimitStateContinuous" -> <<[n |-> "limitState", rule |-> Str]>>
      [] rt = "FFSetContinuous" ->
            <<[n |-> "ordinal", rule |-> Int1], [n |-> "taxonomy", rule |-> R("not_empty")],
              [n |-> "noDamageLimit", rule |-> Opt(PosReal)], [n |-> "type", rule |-> Str],
              [n |-> "IMT", rule |-> Str], [n |-> "imlUnit", rule |-> Str],
              [n |-> "minIML", rule |-> Real], [n |-> "maxIML", rule |-> Real]>>
      [] rt = "FFDataContinuous" ->
            <<[n |-> "limitState", rule |-> Str], [n |-> "ffs_ordinal", rule |-> Int1],
              [n |-> "param", rule |-> Str], [n |-> "value", rule |-> Real]>>
      [] rt = "Location" ->
            <<[n |-> "id", rule |-> R("positiveint")], [n |-> "lon", rule |-> R("longitude")],
              [n |-> "lat", rule |-> R("latitude")]>>
      [] rt = "Exposure" ->
            <<[n |-> "id", rule |-> R("not_empty")], [n |-> "category", rule |-> Category],
              [n |-> "taxonomySource", rule |-> Str], [n |-> "description", rule |-> Str],
              [n |-> "area_type", rule |-> Opt(Of(<<"aggregated", "per_asset">>))],
              [n |-> "area_unit", rule |-> Opt(Str)],
              [n |-> "deductible_is_absolute", rule |-> Opt(R("boolean"))],
              [n |-> "insurance_limit_is_absolute", rule |-> Opt(R("boolean"))]>>
      [] rt = "CostType" ->
            <<[n |-> "name", rule |-> Str], [n |-> "type", rule |-> CostKinds], [n |-> "unit", rule |-> Str],
              [n |-> "retrofittedType", rule |-> Opt(CostKinds)], [n |-> "retrofittedUnit", rule |-> Str]>>
      [] rt = "Asset" ->
            <<[n |-> "location_id", rule |-> R("positiveint")], [n |-> "asset_ref", rule |-> Str],
              [n |-> "taxonomy", rule |-> R("not_empty")], [n |-> "number", rule |-> PosReal],
              [n |-> "area", rule |-> Opt(PosReal)]>>
      [] rt = "Occupancy" ->
            <<[n |-> "asset_ref", rule |-> Str], [n |-> "period", rule |-> Str],
              [n |-> "occupants", rule |-> PosReal]>>
      [] rt = "Cost" ->
            <<[n |-> "asset_ref", rule |-> Str], [n |-> "type", rule |-> Str], [n |-> "value", rule |-> PosReal],
              [n |-> "retrofitted", rule |-> Opt(PosReal)], [n |-> "deductible", rule |-> Opt(PosReal)],
              [n |-> "insurance_limit", rule |-> Opt(PosReal)]>>
      [] rt = "GmfCollection" ->
            <<[n |-> "sourceModelTreePath", rule |-> Str], [n |-> "gsimTreePath", rule |-> Str]>>
      [] rt = "GmfSet" ->
            <<[n |-> "stochasticEventSetId", rule |-> Int1], [n |-> "investigationTime", rule |-> Opt(Real)]>>
      [] rt = "Gmf" ->
            <<[n |-> "stochasticEventSetId", rule |-> Int1], [n |-> "imtStr", rule |-> R("IMTstr")],
              [n |-> "ruptureId", rule |-> Str]>>
      [] rt = "GmfData" ->
            <<[n |-> "stochasticEventSetId", rule |-> Int1], [n |-> "imtStr", rule |-> Str],
              [n |-> "ruptureId", rule |-> Str], [n |-> "lon", rule |-> Real], [n |-> "lat", rule |-> Real],
              [n |-> "gmv", rule |-> Real]>>

\* the converters, and their tables in order
Types(conv) ==
    CASE conv = "Vulnerability" ->
            <<"DiscreteVulnerabilitySet", "DiscreteVulnerability", "DiscreteVulnerabilityData">>
      [] conv = "FragilityDiscrete" ->
            <<"FragilityDiscrete", "FFLimitStateDiscrete", "FFSetDiscrete", "FFDataDiscrete">>
      [] conv = "FragilityContinuous" ->
            <<"FragilityContinuous", "FFLimitStateContinuous", "FFSetContinuous", "FFDataContinuous">>
      [] conv = "Exposure" -> <<"Location", "Exposure", "CostType", "Asset", "Occupancy", "Cost">>
      [] conv = "GmfCollection" -> <<"GmfCollection", "GmfSet", "Gmf", "GmfData">>
Converters == {"Vulnerability", "FragilityDiscrete", "FragilityContinuous", "Exposure", "GmfCollection"}
RangeOf(q) == {q[n] : n \in 1..Len(q)}
AllTypes == UNION {RangeOf(Types(c)) : c \in Converters}
ConverterOf(rt) == CHOOSE c \in Converters : rt \in RangeOf(Types(c))

\* the columns that no two rows of a table share, together
Keys(rt) ==
    CASE rt \in {"DiscreteVulnerability", "Occupancy", "Cost", "GmfCollection"} -> {<<1, 2>>}
      [] rt \in {"DiscreteVulnerabilityData", "FFDataDiscrete", "FFDataContinuous", "Gmf"} -> {<<1, 2, 3>>}
      [] rt = "Location" -> {<<1>>, <<2, 3>>}
      [] rt = "Asset" -> {<<2>>}
      [] rt = "GmfData" -> {<<1, 2, 3, 4, 5>>}
      [] OTHER -> {<<1>>}
\* the columns that must be found in the key of another table
Refers(rt) ==
    CASE rt = "DiscreteVulnerability" -> [to |-> "DiscreteVulnerabilitySet", cols |-> <<1>>]
      [] rt = "DiscreteVulnerabilityData" -> [to |-> "DiscreteVulnerability", cols |-> <<1, 2>>]
      [] OTHER -> [to |-> "", cols |-> <<>>]

-----------------------------------------------------------------------------
(* Files and groups *)
Suffix(rt) == "__" \o rt \o ".csv"
FileName(prefix, rt) == prefix \o Suffix(rt)
EndsWith(name, s) == Len(name) >= Len(s) /\ SubSeq(name, Len(name) - Len(s) + 1, Len(name)) = s
Conforming(name) == \E rt \in AllTypes : EndsWith(name, Suffix(rt))
TypeOf(name) == CHOOSE rt \in AllTypes : EndsWith(name, Suffix(rt))
PrefixOf(name) == SubSeq(name, 1, Len(name) - Len(Suffix(TypeOf(name))))
Tabular(files) == {x \in DOMAIN files : Conforming(x)}
Groups(files) == {PrefixOf(x) : x \in Tabular(files)}
GroupFiles(files, prefix) == {x \in Tabular(files) : PrefixOf(x) = prefix}
\* the converter of a group (a group never mixes converters here)
GroupConverter(files, prefix) == ConverterOf(TypeOf(CHOOSE x \in GroupFiles(files, prefix) : TRUE))
Mixed(files, prefix) == \E x, y \in GroupFiles(files, prefix) :
                            ConverterOf(TypeOf(x)) # ConverterOf(TypeOf(y))

Names(rt) == [n \in 1..Len(Fields(rt)) |-> Fields(rt)[n].n]
\* a short row is completed with empty cells
Pad(rt, row) == [n \in 1..Len(Fields(rt)) |-> IF n <= Len(row) THEN row[n] ELSE ""]
BadHeader(files, header, name, rt) ==
    header /\ Len(files[name]) > 0 /\ files[name][1] # Names(rt)
Rows(files, header, name, rt) ==
    LET f == files[name]  from == IF header THEN 2 ELSE 1 IN
    TLCEval([n \in 1..(IF Len(f) < from THEN 0 ELSE Len(f) - from + 1) |-> Pad(rt, f[n + from - 1])])

\* reading a table
ReadProblem(files, header, prefix, rt) ==
    LET name == FileName(prefix, rt) IN
    IF name \notin DOMAIN files THEN "NotInArchive"
    ELSE IF BadHeader(files, header, name, rt) THEN "InvalidFile" ELSE "ok"
ReadRows(files, header, prefix, rt) == Rows(files, header, FileName(prefix, rt), rt)

At(row, cols) == [n \in 1..Len(cols) |-> row[cols[n]]]
KeysOf(rows, cols) == {At(rows[n], cols) : n \in 1..Len(rows)}
Duplicated(rt, rows) == \E cols \in Keys(rt) : Cardinality(KeysOf(rows, cols)) < Len(rows)
TableProblems(files, header, prefix, rt) ==
    LET p == ReadProblem(files, header, prefix, rt) IN
    IF p # "ok" THEN {p}
    ELSE IF Duplicated(rt, ReadRows(files, header, prefix, rt)) THEN {"KeyError"} ELSE {}

\* building all the tables of a group
Present(files, prefix) == {rt \in AllTypes : FileName(prefix, rt) \in DOMAIN files}
GoodRows(files, header, prefix, rt) ==
    IF ReadProblem(files, header, prefix, rt) = "ok" THEN ReadRows(files, header, prefix, rt) ELSE <<>>
Dangling(files, header, prefix, rt) ==
    LET r == Refers(rt) IN
    /\ r.to # ""
    /\ \E key \in KeysOf(GoodRows(files, header, prefix, rt), r.cols) :
            key \notin KeysOf(GoodRows(files, header, prefix, r.to), r.cols)
SetProblems(files, header, prefix) ==
    UNION {TableProblems(files, header, prefix, rt) : rt \in Present(files, prefix)}
    \cup (IF \E rt \in Present(files, prefix) : Dangling(files, header, prefix, rt)
          THEN {"ForeignKeyError"} ELSE {})
\* the group a manager works on
Chosen(files, prefix) == {g \in Groups(files) : prefix = "" \/ g = prefix}
ChoiceProblem(files, prefix) ==
    IF Chosen(files, prefix) = {} THEN "NotInArchive"
    ELSE IF Cardinality(Chosen(files, prefix)) > 1 THEN "MultipleManagerError" ELSE "ok"

-----------------------------------------------------------------------------
(* Invalid rows *)
BadCols(rt, row) == SelectSeq([n \in 1..Len(Fields(rt)) |-> n],
                              LAMBDA n : ~Accepts(Fields(rt)[n].rule, row[n]))
RECURSIVE BadRowsFrom(_, _, _)
BadRowsFrom(rt, rows, n) ==
    IF n > Len(rows) THEN <<>>
    ELSE LET b == TLCEval(BadCols(rt, rows[n])) IN
         (IF b = <<>> THEN <<>> ELSE <<[rt |-> rt, row |-> n - 1, cols |-> b]>>)
         \o BadRowsFrom(rt, rows, n + 1)
RECURSIVE BadOfTypes(_, _, _, _)
BadOfTypes(files, header, prefix, rts) ==
    IF rts = <<>> \/ ReadProblem(files, header, prefix, Head(rts)) = "InvalidFile" THEN <<>>
    ELSE (IF FileName(prefix, Head(rts)) \in DOMAIN files
          THEN BadRowsFrom(Head(rts), ReadRows(files, header, prefix, Head(rts)), 1) ELSE <<>>)
         \o BadOfTypes(files, header, prefix, Tail(rts))
\* the invalid rows of a group: table by table, row by row (up to the first
\* file that is refused)
BadOfGroup(files, header, prefix) ==
    BadOfTypes(files, header, prefix, Types(GroupConverter(files, prefix)))
\* all that is invalid: group -> its invalid rows
AllBad(files, header) == TLCEval([g \in Groups(files) |-> BadOfGroup(files, header, g)])
RECURSIVE SumLen(_, _)
SumLen(bad, gs) == IF gs = {} THEN 0
                   ELSE LET g == CHOOSE g \in gs : TRUE IN Len(bad[g]) + SumLen(bad, gs \ {g})
Total(files, header) == SumLen(AllBad(files, header), Groups(files))
AnyBadHeader(files, header) ==
    \E x \in Tabular(files) : BadHeader(files, header, x, TypeOf(x))
Least(a, b) == IF a < b THEN a ELSE b
Reported(total, limit) == IF limit < 0 THEN total ELSE Least(total, limit)

-----------------------------------------------------------------------------
(* Writing *)
Put(files, name, rows) == (name :> rows) @@ files
\* the rows of a type among those written, in order
OfType(written, rt) == LET only == SelectSeq(written, LAMBDA w : w.rt = rt) IN
                       [n \in 1..Len(only) |-> Pad(rt, only[n].row)]
WrittenTypes(written) == {written[n].rt : n \in 1..Len(written)}
AfterSession(files, header, prefix, written) ==
    [x \in {FileName(prefix, rt) : rt \in WrittenTypes(written)} |->
        (IF header THEN <<Names(TypeOf(x))>> ELSE <<>>) \o OfType(written, TypeOf(x))] @@ files
=============================================================================
