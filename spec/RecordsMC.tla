------------------------------ MODULE RecordsMC ------------------------------
(* The record types of the library and made-up ones; bounded instance and    *)
(* generator of histories.                                                   *)
EXTENDS Records, Json

CONSTANTS Depth, Mode
VARIABLE hist

Str == [r |-> "str"]
IntR == [r |-> "int"]
Flt == [r |-> "float"]
PInt == [r |-> "positiveint"]
PFlt == [r |-> "positivefloat"]
Prob == [r |-> "probability"]
NE == [r |-> "not_empty"]
IMT == [r |-> "IMTstr"]
Names == [r |-> "namelist"]
Cat == [r |-> "choice", of |-> <<"population", "buildings">>]
Opt(s) == [r |-> "noneor", sub |-> s]
Choice(c) == [r |-> "choice", of |-> c]
AggTypes == Choice(<<"aggregated", "per_asset", "per_area">>)
C(n, r) == [name |-> n, rule |-> r]
Ty(n, cols) == [name |-> n, cols |-> cols, checks |-> <<>>]

\* the record types of the library, as in the specification of the tables
T == INSTANCE CsvTables
ShippedNames == T!Types("Vulnerability") \o T!Types("FragilityDiscrete") \o T!Types("FragilityContinuous")
                \o T!Types("Exposure") \o T!Types("GmfCollection")
ChecksOf(name) == IF name = "Exposure" THEN <<[c |-> "together", of |-> <<5, 6>>]>> ELSE <<>>
Shipped == [n \in 1..Len(ShippedNames) |-> LET name == ShippedNames[n]  f == T!Fields(name) IN
    [name |-> name, cols |-> [m \in 1..Len(f) |-> C(f[m].n, f[m].rule)], checks |-> ChecksOf(name)]]

Made == <<
  [name |-> "", cols |-> <<C("x", IntR), C("y", Prob)>>, checks |-> <<>>],
  [name |-> "", cols |-> <<C("b", PInt), C("a", Opt(PInt)), C("z", Str), C("c", Opt(IntR))>>,
   checks |-> <<[c |-> "together", of |-> <<2, 4>>], [c |-> "differ", of |-> <<1, 3>>]>>],
  [name |-> "", cols |-> <<C("k", NE), C("v", [r |-> "range", lo |-> "-1", hi |-> "1"]),
     C("w", [r |-> "boolean"]), C("n", [r |-> "name"]), C("l", Names)>>,
   checks |-> <<[c |-> "differ", of |-> <<1, 4>>]>>],
  [name |-> "", cols |-> <<C("p", IntR), C("q", Str), C("r", Opt(Flt)), C("s", Str)>>,
   checks |-> <<[c |-> "differ", of |-> <<1, 2>>], [c |-> "together", of |-> <<3, 4>>],
                [c |-> "differ", of |-> <<2, 4>>], [c |-> "differ", of |-> <<1, 3>>]>>] >>

Good(rule) ==
    CASE rule.r = "str" -> {"", "a", "x y", "1"}
      [] rule.r = "int" -> {"0", "12", "-3", " 7"}
      [] rule.r = "float" -> {"0", "1.5", "-2e-3", "7"}
      [] rule.r = "positiveint" -> {"0", "1", "42"}
      [] rule.r = "positivefloat" -> {"0", "0.5", "1e3", "10"}
      [] rule.r = "longitude" -> {"180", "-180", "12.25"}
      [] rule.r = "latitude" -> {"90", "-90", "45.5"}
      [] rule.r = "probability" -> {"0", "1", "0.25"}
      [] rule.r = "range" -> {rule.lo, rule.hi}
      [] rule.r = "name" -> {"a", "b_1"}
      [] rule.r = "namelist" -> {"a", "a b c1"}
      [] rule.r = "not_empty" -> {"a", "1", " "}
      [] rule.r = "choice" -> {rule.of[n] : n \in 1..Len(rule.of)}
      [] rule.r = "boolean" -> {"0", "1", "true", "false"}
      [] rule.r = "IMTstr" -> {"PGA", "SA(0.1)", "MMI"}
      [] rule.r = "noneor" -> {"", ""}
\* an optional column is also filled
Fill(rule) == IF rule.r = "noneor" THEN {""} \cup Good(rule.sub) ELSE Good(rule)

Texts0 == {"", "a", "1", "-1", "0", "0.5", "1.5", "181", "-90.5", "x y", "PGA", "SA(1)", "PGAx",
        "true", "TRUE", "nan", "-inf", "1e3", "buildings", "aggregated", "per_area", " ", "9z", "-0", "2.0"}

MCInit == /\ typ \in (IF Mode = "sim"
                      THEN {Shipped[n] : n \in 1..Len(Shipped)} \cup {Made[n] : n \in 1..Len(Made)}
                      ELSE {Made[1]})
          /\ row = [i \in 1..Len(typ.cols) |-> ""]
          /\ out = "ok"
          /\ hist = <<>>

Op(o) == hist' = Append(hist, o)
Scn == PrintT("SCN " \o ToJson([typ |-> typ, ops |-> hist]))

\* a record is made with a whole row of any texts
New(r) == /\ row' = r /\ out' = "ok" /\ UNCHANGED typ
          /\ Op([op |-> "new", row |-> r])
Set(k, v) == Assign(k, v) /\ Op([op |-> "set", key |-> k, value |-> v])

ByN(nm) == [by |-> "name", name |-> nm, pos |-> 0]
ByP(p) == [by |-> "pos", name |-> "", pos |-> p]

Few == {"", "1", "-1", "x"}
CheckKeys == {ByN("x"), ByN("nope"), ByP(0), ByP(1), ByP(-1), ByP(2)}
MCNext == /\ Len(hist) < Depth
          /\ IF hist = <<>> THEN \E r \in [1..Width -> Few] : New(r)
             ELSE \E k \in CheckKeys, v \in Few : Set(k, v)
Emit == Len(hist) = Depth => Scn
NoHist == <<typ, row, out, Len(hist) > 0>>

SimNext ==
    \/ /\ Len(hist) < Depth
       /\ \E i \in {RandomElement(Cols)}, n \in {RandomElement(1..20)}, n2 \in {RandomElement(1..10)},
             z \in {RandomElement(-9..9)} :
          IF hist = <<>> \/ n = 20
          THEN \E r \in {[j \in Cols |-> IF RandomElement(1..6) = 1 THEN RandomElement(Texts0)
                                         ELSE RandomElement(Fill(typ.cols[j].rule))]} : New(r)
          ELSE \E v \in {IF n2 <= 5 THEN RandomElement(Texts0) ELSE RandomElement(Fill(typ.cols[i].rule))} :
               Set(IF n < 9 THEN ByN(typ.cols[i].name)
                   ELSE IF n < 16 THEN ByP(i - 1)
                   ELSE IF n < 18 THEN ByP(i - 1 - Width)
                   ELSE IF n = 18 THEN ByP(z) ELSE ByN("nope"), v)
    \/ /\ Len(hist) = Depth
       /\ Scn
       /\ hist' = Append(hist, [op |-> "end"])
       /\ UNCHANGED rvars
=============================================================================
