------------------------------ MODULE ModelsMC ------------------------------
(* Archives holding models under different prefixes: conversions to tables    *)
(* and back, in any order.                                                    *)
EXTENDS Models, Json
CONSTANTS Kinds, MaxModels, MaxBack
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Num(n) == "0." \o Str(n)

\* small models of every kind: values differ by position, shapes by choice
VulnOf(shape) ==   \* shape: per set, <<functions, levels>>
    [kind |-> "vuln", sets |-> [n \in 1..Len(shape) |->
        [id |-> "S" \o Str(n), cat |-> IF n = 1 THEN "population" ELSE "buildings",
         loss |-> "loss" \o Str(n), imt |-> IF n = 1 THEN "MMI" ELSE "SA(0.1)",
         imls |-> [j \in 1..shape[n][2] |-> Str(n) \o "." \o Str(j)],
         funs |-> [k \in 1..shape[n][1] |->
            [id |-> "f" \o Str(k), dist |-> IF k = 1 THEN "LN" ELSE "BT",
             lr |-> [j \in 1..shape[n][2] |-> Num(10 * n + 3 * k + j)],
             cv |-> [j \in 1..shape[n][2] |-> Num(20 * n + 3 * k + j)]]]]]]
Vulns == {VulnOf(s) : s \in Seqs((1..2) \X (1..2), 1, 2)}
LS == <<"slight", "complete">>
FragdOf(nls, shape) ==   \* per set, <<levels, ndl?>>
    [kind |-> "fragd", desc |-> "A model", ls |-> SubSeq(LS, 1, nls), sets |-> [n \in 1..Len(shape) |->
        [tax |-> "T" \o Str(n), ndl |-> IF shape[n][2] THEN Num(n) ELSE "", imt |-> "PGA", unit |-> "g",
         imls |-> [j \in 1..shape[n][1] |-> Str(n) \o "." \o Str(j)],
         poes |-> [k \in 1..nls |-> [j \in 1..shape[n][1] |-> Num(10 * n + 3 * k + j)]]]]]
FragcOf(nls, shape) ==   \* per set, <<type?, ndl?>>
    [kind |-> "fragc", desc |-> "A model", ls |-> SubSeq(LS, 1, nls), sets |-> [n \in 1..Len(shape) |->
        [tax |-> "T" \o Str(n), ndl |-> IF shape[n][2] THEN Num(n) ELSE "",
         type |-> IF shape[n][1] THEN "lognormal" ELSE "", imt |-> "PGA", unit |-> "m",
         min |-> Num(n), max |-> Str(n), pars |-> [k \in 1..nls |-> <<Num(10 * n + k), Num(30 * n + k)>>]]]]
Fragds == {FragdOf(nls, s) : nls \in 1..2, s \in Seqs((1..2) \X BOOLEAN, 1, 2)}
Fragcs == {FragcOf(nls, s) : nls \in 1..2, s \in Seqs(BOOLEAN \X BOOLEAN, 1, 2)}
CT(n, r) == [name |-> "c" \o Str(n), type |-> IF n = 1 THEN "per_area" ELSE "aggregated", unit |-> "USD",
             rt |-> IF r THEN "per_asset" ELSE "", ru |-> IF r THEN "EUR" ELSE ""]
CostOf(n, k, o) == [type |-> "c" \o Str(k), value |-> Str(10 * n + k), retro |-> IF o THEN Str(20 * n + k) ELSE "",
                    ded |-> IF o THEN Num(n) ELSE "", ins |-> IF o THEN Num(10 + n) ELSE ""]
\* costs: sequences of <<type, optional attributes?>>; occs: sequences of periods
AssetOf(n, loc, area, costs, occs) ==
    [id |-> "a" \o Str(n), tax |-> "T" \o Str(n), num |-> Str(n), area |-> IF area THEN Str(100 + n) ELSE "",
     loc |-> IF loc = 1 THEN <<"9.5", "45.1">> ELSE <<"45.1", "9.5">>,
     costs |-> [k \in 1..Len(costs) |-> CostOf(n, costs[k][1], costs[k][2])],
     occs |-> [k \in 1..Len(occs) |-> <<occs[k], Str(5 * n + k)>>]]
Expo(cat, area, ded, ins, cts, assets) ==
    [kind |-> "exp", id |-> "e1", cat |-> cat, tsrc |-> "src", desc |-> "An exposure",
     area |-> IF area THEN <<"per_asset", "SQM">> ELSE <<>>, ded |-> ded, ins |-> ins, cts |-> cts, assets |-> assets]
OccSeqs == {<<>>, <<"day">>, <<"night">>, <<"night", "day">>}
CostSeqs == {<<>>, << <<1, TRUE>> >>, << <<2, FALSE>> >>, << <<2, TRUE>>, <<1, FALSE>> >>}
Exps == {Expo("population", area, "", "", <<>>, <<>>) : area \in BOOLEAN}
     \cup {Expo("buildings", area, "true", "", <<CT(1, TRUE)>>, <<>>) : area \in BOOLEAN}
     \cup {Expo("population", area, "", "", <<>>, <<AssetOf(1, 1, FALSE, <<>>, o)>>) : area \in BOOLEAN, o \in OccSeqs}
     \cup {Expo("buildings", area, ded, ins, cts, <<AssetOf(1, 1, ar, cs, <<"day">>)>>) :
              area \in BOOLEAN, ded \in {"", "true"}, ins \in {"", "false"}, ar \in BOOLEAN,
              cts \in {<<CT(1, FALSE), CT(2, TRUE)>>, <<CT(2, FALSE), CT(1, FALSE)>>}, cs \in CostSeqs}
     \cup {Expo("buildings", TRUE, "true", "false", <<CT(1, FALSE), CT(2, FALSE)>>,
                <<AssetOf(1, 1, TRUE, c1, o1), AssetOf(2, l2, FALSE, c2, o2)>>) :
              l2 \in 1..2, c1 \in CostSeqs, c2 \in CostSeqs, o1 \in OccSeqs, o2 \in OccSeqs}
Fields == {<<"PGA", "1">>, <<"SA(0.1)", "1">>, <<"SA(0.2)", "1">>, <<"PGA", "2">>}
DistinctSeqs(S, lo, hi) == {q \in Seqs(S, lo, hi) : Cardinality(RangeOf(q)) = Len(q)}
GmfOf(s, n, f, r) == [imt |-> f[1], rup |-> IF r THEN "r" \o f[2] ELSE "",
                      nodes |-> [j \in 1..n |-> <<"0.0", Str(j), Num(10 * s + n + 5 * j)>>]]
Gmfsets == {[kind |-> "gmfset", gmfs |-> [n \in 1..Len(q) |-> GmfOf(0, n, q[n], FALSE)]] :
               q \in DistinctSeqs(Fields \ {<<"PGA", "2">>}, 1, 3)}
Gmfcolls == {[kind |-> "gmfcoll", smp |-> "b1", gsim |-> "b2", sets |-> [s \in 1..Len(qs) |->
                [id |-> Str(3 - s), time |-> "50.0", gmfs |-> [n \in 1..Len(qs[s]) |-> GmfOf(s, n, qs[s][n], TRUE)]]]] :
                qs \in Seqs(DistinctSeqs(Fields, 0, 2), 1, 2)}
Small(k) == CASE k = "vuln" -> Vulns [] k = "fragd" -> Fragds [] k = "fragc" -> Fragcs [] k = "exp" -> Exps
              [] k = "gmfset" -> Gmfsets [] OTHER -> Gmfcolls
AllSmall == UNION {Small(k) : k \in Kinds}
KindsVuln == {"vuln"}
KindsFrag == {"fragd", "fragc"}
KindsExp == {"exp"}
KindsGmf == {"gmfset", "gmfcoll"}

\* an archive: for every prefix, the tables of a model
VARIABLES orig, tables, back
mvars == <<orig, tables, back>>
Init == /\ orig \in {<<m>> : m \in AllSmall} /\ tables = <<>> /\ back = <<>>
ToTables == /\ Len(tables) < Len(orig) /\ tables' = Append(tables, Rows(orig[Len(tables) + 1]))
            /\ UNCHANGED <<orig, back>>
FromTables == /\ Len(back) < MaxBack
              /\ \E n \in 1..Len(tables) : back' = Append(back, <<n, Back(orig[n].kind, tables[n])>>)
              /\ UNCHANGED <<orig, tables>>
\* a model converted back is converted once more
Again == /\ \E n \in 1..Len(back) : Len(orig) < MaxModels /\ orig' = Append(orig, back[n][2])
         /\ UNCHANGED <<tables, back>>
Next == ToTables \/ FromTables \/ Again
RoundTrip == \A n \in 1..Len(back) : Facts(back[n][2]) = Facts(orig[back[n][1]])
Fixpoint == \A n \in 1..Len(back) : Rows(back[n][2]) = Rows(orig[back[n][1]])
\* one row per element, with distinct keys
RowsWellFormed == \A n \in 1..Len(tables) : LET t == tables[n] m == orig[n] IN
    /\ m.kind = "vuln" =>
         /\ Len(t.DiscreteVulnerabilitySet) = Len(m.sets)
         /\ \A k \in 1..Len(t.DiscreteVulnerabilityData) : \E j \in 1..Len(t.DiscreteVulnerability) :
              SubSeq(t.DiscreteVulnerabilityData[k], 1, 2) = SubSeq(t.DiscreteVulnerability[j], 1, 2)
         /\ Cardinality({SubSeq(r, 1, 3) : r \in RangeOf(t.DiscreteVulnerabilityData)})
              = Len(t.DiscreteVulnerabilityData)
    /\ m.kind = "exp" =>
         /\ LocsOk(t) /\ Canon(t) = t /\ Len(t.Asset) = Len(m.assets)
         /\ Cardinality({SubSeq(r, 1, 2) : r \in RangeOf(t.Cost)}) = Len(t.Cost)
         /\ Cardinality({SubSeq(r, 1, 2) : r \in RangeOf(t.Occupancy)}) = Len(t.Occupancy)
         /\ Len(t.Location) = Cardinality({a.loc : a \in RangeOf(m.assets)})
    /\ m.kind \in {"gmfset", "gmfcoll"} =>
         Cardinality({SubSeq(r, 1, 3) : r \in RangeOf(t.Gmf)}) = Len(t.Gmf)
Emit == tables = <<>> => PrintT("SCN " \o ToJson(orig[1]))
Stop == FALSE /\ UNCHANGED mvars
=============================================================================
