------------------------------- MODULE Models -------------------------------
(* The models of NRML, what an XML document says about one (a set of facts,   *)
(* "path@attribute=value", "path=text" and "path#number of children"), the    *)
(* CSV tables it is stored in, and the model that is read back from tables.   *)
(* All values are texts; "" stands for an absent optional value.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- helpers
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
RangeOf(q) == {q[n] : n \in 1..Len(q)}
IndexIn(q, x) == CHOOSE n \in 1..Len(q) : q[n] = x
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(q, 1, Len(q) - 1)) IN
                 IF q[Len(q)] \in RangeOf(r) THEN r ELSE Append(r, q[Len(q)])
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Join(Tail(q))
Str(n) == ToString(n)
Sub(path, tag, n) == path \o "/" \o tag \o "." \o Str(n)
At(path, attr, v) == {path \o "@" \o attr \o "=" \o v}
Opt(path, attr, v) == IF v = "" THEN {} ELSE At(path, attr, v)
Text(path, v) == IF v = "" THEN {} ELSE {path \o "=" \o v}
Kids(path, n) == {path \o "#" \o Str(n)}
Leaf(path) == Kids(path, 0)
All(q, Op(_)) == UNION {Op(n) : n \in 1..Len(q)}
IsSA(imt) == Len(imt) > 3 /\ SubSeq(imt, 1, 3) = "SA("

\* ------------------------------------------------------------- vulnerability
VFun(p, s, f) ==
    At(p, "vulnerabilityFunctionID", f.id) \cup At(p, "probabilisticDistribution", f.dist)
    \cup Kids(p, 2) \cup Leaf(p \o "/lossRatio.1") \cup Leaf(p \o "/coefficientsVariation.1")
    \cup Text(p \o "/lossRatio.1", Join(f.lr)) \cup Text(p \o "/coefficientsVariation.1", Join(f.cv))
VSet(p, s) ==
    At(p, "vulnerabilitySetID", s.id) \cup At(p, "assetCategory", s.cat) \cup At(p, "lossCategory", s.loss)
    \cup Kids(p, 1 + Len(s.funs)) \cup Leaf(p \o "/IML.1") \cup At(p \o "/IML.1", "IMT", s.imt)
    \cup Text(p \o "/IML.1", Join(s.imls))
    \cup All(s.funs, LAMBDA n : VFun(Sub(p, "discreteVulnerability", n), s, s.funs[n]))
VulnFacts(m) ==
    {"vulnerabilityModel"} \cup Kids("", Len(m.sets))
    \cup All(m.sets, LAMBDA n : VSet(Sub("", "discreteVulnerabilitySet", n), m.sets[n]))
VulnRows(m) ==
    [DiscreteVulnerabilitySet |->
        [n \in 1..Len(m.sets) |-> LET s == m.sets[n] IN <<s.id, s.cat, s.loss, s.imt>>],
     DiscreteVulnerability |->
        Flatten([n \in 1..Len(m.sets) |-> LET s == m.sets[n] IN
            [k \in 1..Len(s.funs) |-> <<s.id, s.funs[k].id, s.funs[k].dist>>]]),
     DiscreteVulnerabilityData |->
        Flatten([n \in 1..Len(m.sets) |-> LET s == m.sets[n] IN
            Flatten([k \in 1..Len(s.funs) |-> LET f == s.funs[k] IN
                [j \in 1..Len(s.imls) |-> <<s.id, f.id, s.imls[j], f.lr[j], f.cv[j]>>]])])]
VulnBack(t) ==
    [kind |-> "vuln", sets |-> [n \in 1..Len(t.DiscreteVulnerabilitySet) |->
        LET s == t.DiscreteVulnerabilitySet[n]
            funs == SelectSeq(t.DiscreteVulnerability, LAMBDA r : r[1] = s[1])
            Data(f) == SelectSeq(t.DiscreteVulnerabilityData, LAMBDA r : r[1] = s[1] /\ r[2] = f)
        IN [id |-> s[1], cat |-> s[2], loss |-> s[3], imt |-> s[4],
            imls |-> LET d == Data(funs[Len(funs)][2]) IN [j \in 1..Len(d) |-> d[j][3]],
            funs |-> [k \in 1..Len(funs) |-> LET d == Data(funs[k][2]) IN
                [id |-> funs[k][2], dist |-> funs[k][3],
                 lr |-> [j \in 1..Len(d) |-> d[j][4]], cv |-> [j \in 1..Len(d) |-> d[j][5]]]]]]]

\* ------------------------------------------------------------------ fragility
FragHead(m, fmt) ==
    {"fragilityModel"} \cup At("", "format", fmt) \cup Kids("", 2 + Len(m.sets))
    \cup Leaf("/description.1") \cup Text("/description.1", m.desc)
    \cup Leaf("/limitStates.1") \cup Text("/limitStates.1", Join(m.ls))
FragSet(p, s, nls) ==
    Opt(p, "noDamageLimit", s.ndl) \cup Kids(p, 2 + nls)
    \cup Leaf(p \o "/taxonomy.1") \cup Text(p \o "/taxonomy.1", s.tax)
    \cup Leaf(p \o "/IML.1") \cup At(p \o "/IML.1", "IMT", s.imt) \cup At(p \o "/IML.1", "imlUnit", s.unit)
FragdSet(p, m, s) ==
    FragSet(p, s, Len(m.ls)) \cup Text(p \o "/IML.1", Join(s.imls)) \cup
    All(m.ls, LAMBDA n : LET q == Sub(p, "ffd", n) IN
        At(q, "ls", m.ls[n]) \cup Kids(q, 1) \cup Leaf(q \o "/poEs.1") \cup Text(q \o "/poEs.1", Join(s.poes[n])))
FragdFacts(m) == FragHead(m, "discrete") \cup All(m.sets, LAMBDA n : FragdSet(Sub("", "ffs", n), m, m.sets[n]))
FragdRows(m) ==
    [FragilityDiscrete |-> << <<"discrete", m.desc, Join(m.ls)>> >>,
     FFLimitStateDiscrete |-> [n \in 1..Len(m.ls) |-> <<m.ls[n]>>],
     FFSetDiscrete |-> [n \in 1..Len(m.sets) |-> LET s == m.sets[n] IN <<Str(n), s.tax, s.ndl, s.imt, s.unit>>],
     FFDataDiscrete |-> Flatten([n \in 1..Len(m.sets) |-> LET s == m.sets[n] IN
        Flatten([k \in 1..Len(m.ls) |->
            [j \in 1..Len(s.imls) |-> <<m.ls[k], Str(n), s.imls[j], s.poes[k][j]>>]])])]
FragdBack(t) ==
    LET ls == [n \in 1..Len(t.FFLimitStateDiscrete) |-> t.FFLimitStateDiscrete[n][1]]
        Data(o, l) == SelectSeq(t.FFDataDiscrete, LAMBDA r : r[2] = o /\ r[1] = l)
    IN [kind |-> "fragd", desc |-> t.FragilityDiscrete[1][2], ls |-> ls,
        sets |-> [n \in 1..Len(t.FFSetDiscrete) |-> LET s == t.FFSetDiscrete[n] IN
            [tax |-> s[2], ndl |-> s[3], imt |-> s[4], unit |-> s[5],
             imls |-> LET d == Data(s[1], ls[1]) IN [j \in 1..Len(d) |-> d[j][3]],
             poes |-> [k \in 1..Len(ls) |-> LET d == Data(s[1], ls[k]) IN [j \in 1..Len(d) |-> d[j][4]]]]]]
FragcSet(p, m, s) ==
    FragSet(p, s, Len(m.ls)) \cup Opt(p, "type", s.type)
    \cup At(p \o "/IML.1", "minIML", s.min) \cup At(p \o "/IML.1", "maxIML", s.max) \cup
    All(m.ls, LAMBDA n : LET q == Sub(p, "ffc", n) IN
        At(q, "ls", m.ls[n]) \cup Kids(q, 1) \cup Leaf(q \o "/params.1")
        \cup At(q \o "/params.1", "mean", s.pars[n][1]) \cup At(q \o "/params.1", "stddev", s.pars[n][2]))
FragcFacts(m) == FragHead(m, "continuous") \cup All(m.sets, LAMBDA n : FragcSet(Sub("", "ffs", n), m, m.sets[n]))
FragcRows(m) ==
    [FragilityContinuous |-> << <<"continuous", m.desc, Join(m.ls)>> >>,
     FFLimitStateContinuous |-> [n \in 1..Len(m.ls) |-> <<m.ls[n]>>],
     FFSetContinuous |-> [n \in 1..Len(m.sets) |-> LET s == m.sets[n] IN
        <<Str(n), s.tax, s.ndl, s.type, s.imt, s.unit, s.min, s.max>>],
     FFDataContinuous |-> Flatten([n \in 1..Len(m.sets) |-> LET s == m.sets[n] IN
        Flatten([k \in 1..Len(m.ls) |-> << <<m.ls[k], Str(n), "mean", s.pars[k][1]>>,
                                           <<m.ls[k], Str(n), "stddev", s.pars[k][2]>> >>])])]
FragcBack(t) ==
    LET ls == [n \in 1..Len(t.FFLimitStateContinuous) |-> t.FFLimitStateContinuous[n][1]]
        Value(o, l, p) == SelectSeq(t.FFDataContinuous, LAMBDA r : r[1] = l /\ r[2] = o /\ r[3] = p)[1][4]
    IN [kind |-> "fragc", desc |-> t.FragilityContinuous[1][2], ls |-> ls,
        sets |-> [n \in 1..Len(t.FFSetContinuous) |-> LET s == t.FFSetContinuous[n] IN
            [tax |-> s[2], ndl |-> s[3], type |-> s[4], imt |-> s[5], unit |-> s[6], min |-> s[7], max |-> s[8],
             pars |-> [k \in 1..Len(ls) |-> <<Value(s[1], ls[k], "mean"), Value(s[1], ls[k], "stddev")>>]]]]

\* ------------------------------------------------------------------- exposure
\* the costs and the occupancies of an asset are known by type and period
CostFacts(p, c) ==
    LET q == p \o "/cost." \o c.type IN
    Leaf(q) \cup At(q, "type", c.type) \cup At(q, "value", c.value) \cup Opt(q, "retrofitted", c.retro)
    \cup Opt(q, "deductible", c.ded) \cup Opt(q, "insuranceLimit", c.ins)
OccFacts(p, o) ==
    LET q == p \o "/occupancy." \o o[1] IN
    Leaf(q) \cup At(q, "period", o[1]) \cup At(q, "occupants", o[2])
B(x) == IF x THEN 1 ELSE 0
AssetFacts(p, a) ==
    At(p, "id", a.id) \cup At(p, "taxonomy", a.tax) \cup At(p, "number", a.num) \cup Opt(p, "area", a.area)
    \cup Kids(p, 1 + B(a.costs # <<>>) + B(a.occs # <<>>))
    \cup Leaf(p \o "/location.1") \cup At(p \o "/location.1", "lon", a.loc[1]) \cup At(p \o "/location.1", "lat", a.loc[2])
    \cup (IF a.costs = <<>> THEN {} ELSE Kids(p \o "/costs.1", Len(a.costs)))
    \cup All(a.costs, LAMBDA n : CostFacts(p \o "/costs.1", a.costs[n]))
    \cup (IF a.occs = <<>> THEN {} ELSE Kids(p \o "/occupancies.1", Len(a.occs)))
    \cup All(a.occs, LAMBDA n : OccFacts(p \o "/occupancies.1", a.occs[n]))
ConvFacts(p, m) ==
    Kids(p, B(m.area # <<>>) + B(m.cat = "buildings") + B(m.ded # "") + B(m.ins # ""))
    \cup (IF m.area = <<>> THEN {} ELSE Leaf(p \o "/area.1") \cup At(p \o "/area.1", "type", m.area[1])
                                        \cup At(p \o "/area.1", "unit", m.area[2]))
    \cup (IF m.cat # "buildings" THEN {} ELSE Kids(p \o "/costTypes.1", Len(m.cts)))
    \cup All(m.cts, LAMBDA n : LET q == Sub(p \o "/costTypes.1", "costType", n) c == m.cts[n] IN
            Leaf(q) \cup At(q, "name", c.name) \cup At(q, "type", c.type) \cup At(q, "unit", c.unit)
            \cup Opt(q, "retrofittedType", c.rt) \cup Opt(q, "retrofittedUnit", c.ru))
    \cup (IF m.ded = "" THEN {} ELSE Leaf(p \o "/deductible.1") \cup At(p \o "/deductible.1", "isAbsolute", m.ded))
    \cup (IF m.ins = "" THEN {} ELSE Leaf(p \o "/insuranceLimit.1")
                                     \cup At(p \o "/insuranceLimit.1", "isAbsolute", m.ins))
HasConv(m) == m.cat = "buildings" \/ m.area # <<>>
ExpFacts(m) ==
    {"exposureModel"} \cup At("", "id", m.id) \cup At("", "category", m.cat) \cup At("", "taxonomySource", m.tsrc)
    \cup Kids("", 2 + B(HasConv(m))) \cup Leaf("/description.1") \cup Text("/description.1", m.desc)
    \cup (IF HasConv(m) THEN ConvFacts("/conversions.1", m) ELSE {})
    \cup Kids("/assets.1", Len(m.assets))
    \cup All(m.assets, LAMBDA n : AssetFacts(Sub("/assets.1", "asset", n), m.assets[n]))
Places(m) == Dedup([n \in 1..Len(m.assets) |-> m.assets[n].loc])
\* the identifiers of the locations are up to the implementation: here a
\* location is identified by its place
PlaceId(loc) == loc[1] \o " " \o loc[2]
ExpRows(m) ==
    [CostType |-> [n \in 1..Len(m.cts) |-> LET c == m.cts[n] IN <<c.name, c.type, c.unit, c.rt, c.ru>>],
     Exposure |-> << <<m.id, m.cat, m.tsrc, m.desc, IF m.area = <<>> THEN "" ELSE m.area[1],
                       IF m.area = <<>> THEN "" ELSE m.area[2], m.ded, m.ins>> >>,
     Location |-> LET p == Places(m) IN [n \in 1..Len(p) |-> <<PlaceId(p[n]), p[n][1], p[n][2]>>],
     Asset |-> [n \in 1..Len(m.assets) |-> LET a == m.assets[n] IN <<PlaceId(a.loc), a.id, a.tax, a.num, a.area>>],
     Occupancy |-> Flatten([n \in 1..Len(m.assets) |-> LET a == m.assets[n] IN
        [k \in 1..Len(a.occs) |-> <<a.id, a.occs[k][1], a.occs[k][2]>>]]),
     Cost |-> Flatten([n \in 1..Len(m.assets) |-> LET a == m.assets[n] IN
        [k \in 1..Len(a.costs) |-> LET c == a.costs[k] IN <<a.id, c.type, c.value, c.retro, c.ded, c.ins>>]])]
ExpBack(t) ==
    LET e == t.Exposure[1]
        Loc(i) == LET r == SelectSeq(t.Location, LAMBDA x : x[1] = i)[1] IN <<r[2], r[3]>> IN
    [kind |-> "exp", id |-> e[1], cat |-> e[2], tsrc |-> e[3], desc |-> e[4],
     area |-> IF e[5] = "" THEN <<>> ELSE <<e[5], e[6]>>, ded |-> e[7], ins |-> e[8],
     cts |-> [n \in 1..Len(t.CostType) |-> LET c == t.CostType[n] IN
        [name |-> c[1], type |-> c[2], unit |-> c[3], rt |-> c[4], ru |-> c[5]]],
     assets |-> [n \in 1..Len(t.Asset) |-> LET a == t.Asset[n]
                                              cs == SelectSeq(t.Cost, LAMBDA r : r[1] = a[2])
                                              os == SelectSeq(t.Occupancy, LAMBDA r : r[1] = a[2]) IN
        [id |-> a[2], tax |-> a[3], num |-> a[4], area |-> a[5], loc |-> Loc(a[1]),
         costs |-> [k \in 1..Len(cs) |-> [type |-> cs[k][2], value |-> cs[k][3], retro |-> cs[k][4],
                                          ded |-> cs[k][5], ins |-> cs[k][6]]],
         occs |-> [k \in 1..Len(os) |-> <<os[k][2], os[k][3]>>]]]]
\* observed tables, with the locations identified by their place
\* a table without rows has no file
Full(m, files) == IF m.kind = "exp" THEN files @@ [Location |-> <<>>, Asset |-> <<>>] ELSE files
LocIds(t) == {t.Location[n][1] : n \in 1..Len(t.Location)}
LocsOk(t) == /\ Cardinality(LocIds(t)) = Len(t.Location)
             /\ \A n \in 1..Len(t.Asset) : t.Asset[n][1] \in LocIds(t)
Canon(t) ==
    LET Id(i) == LET r == SelectSeq(t.Location, LAMBDA x : x[1] = i)[1] IN PlaceId(<<r[2], r[3]>>) IN
    [t EXCEPT !.Location = [n \in 1..Len(@) |-> [@[n] EXCEPT ![1] = Id(@)]],
              !.Asset = [n \in 1..Len(@) |-> [@[n] EXCEPT ![1] = Id(@)]]]

\* ------------------------------------------------------- ground motion fields
\* a field has an intensity measure type, SA(period) for spectral ones
Period(imt) == SubSeq(imt, 4, Len(imt) - 1)
GmfFacts(p, g) ==
    (IF IsSA(g.imt) THEN At(p, "IMT", "SA") \cup At(p, "saPeriod", Period(g.imt)) \cup At(p, "saDamping", "5")
     ELSE At(p, "IMT", g.imt))
    \cup Opt(p, "ruptureId", g.rup) \cup Kids(p, Len(g.nodes))
    \cup All(g.nodes, LAMBDA n : LET q == Sub(p, "node", n) x == g.nodes[n] IN
            Leaf(q) \cup At(q, "lon", x[1]) \cup At(q, "lat", x[2]) \cup At(q, "gmv", x[3]))
GmfsFacts(p, gmfs) == Kids(p, Len(gmfs)) \cup All(gmfs, LAMBDA n : GmfFacts(Sub(p, "gmf", n), gmfs[n]))
GmfsetFacts(m) == {"gmfSet"} \cup GmfsFacts("", m.gmfs)
GmfcollFacts(m) ==
    {"gmfCollection"} \cup At("", "sourceModelTreePath", m.smp) \cup At("", "gsimTreePath", m.gsim)
    \cup Kids("", Len(m.sets))
    \cup All(m.sets, LAMBDA n : LET q == Sub("", "gmfSet", n) s == m.sets[n] IN
            At(q, "stochasticEventSetId", s.id) \cup At(q, "investigationTime", s.time) \cup GmfsFacts(q, s.gmfs))
SetsRows(sets) ==
    [GmfSet |-> [n \in 1..Len(sets) |-> <<sets[n].id, sets[n].time>>],
     Gmf |-> Flatten([n \in 1..Len(sets) |-> LET s == sets[n] IN
        [k \in 1..Len(s.gmfs) |-> <<s.id, s.gmfs[k].imt, s.gmfs[k].rup>>]]),
     GmfData |-> Flatten([n \in 1..Len(sets) |-> LET s == sets[n] IN
        Flatten([k \in 1..Len(s.gmfs) |-> LET g == s.gmfs[k] IN
            [j \in 1..Len(g.nodes) |-> <<s.id, g.imt, g.rup>> \o g.nodes[j]]])])]
GmfsetRows(m) == SetsRows(<<[id |-> "0", time |-> "", gmfs |-> m.gmfs]>>)
GmfcollRows(m) == [GmfCollection |-> << <<m.smp, m.gsim>> >>] @@ SetsRows(m.sets)
SetsBack(t) ==
    [n \in 1..Len(t.GmfSet) |-> LET s == t.GmfSet[n]
                                    gs == SelectSeq(t.Gmf, LAMBDA r : r[1] = s[1]) IN
        [id |-> s[1], time |-> s[2], gmfs |-> [k \in 1..Len(gs) |->
            LET d == SelectSeq(t.GmfData, LAMBDA r : SubSeq(r, 1, 3) = gs[k]) IN
            [imt |-> gs[k][2], rup |-> gs[k][3], nodes |-> [j \in 1..Len(d) |-> SubSeq(d[j], 4, 6)]]]]]
GmfsetBack(t) == [kind |-> "gmfset", gmfs |-> SetsBack(t)[1].gmfs]
GmfcollBack(t) == [kind |-> "gmfcoll", smp |-> t.GmfCollection[1][1], gsim |-> t.GmfCollection[1][2],
                   sets |-> SetsBack(t)]

\* ------------------------------------------------------------------- any kind
Facts(m) == CASE m.kind = "vuln" -> VulnFacts(m) [] m.kind = "fragd" -> FragdFacts(m)
              [] m.kind = "fragc" -> FragcFacts(m) [] m.kind = "exp" -> ExpFacts(m)
              [] m.kind = "gmfset" -> GmfsetFacts(m) [] OTHER -> GmfcollFacts(m)
Rows(m) == CASE m.kind = "vuln" -> VulnRows(m) [] m.kind = "fragd" -> FragdRows(m)
             [] m.kind = "fragc" -> FragcRows(m) [] m.kind = "exp" -> ExpRows(m)
             [] m.kind = "gmfset" -> GmfsetRows(m) [] OTHER -> GmfcollRows(m)
Back(kind, t) == CASE kind = "vuln" -> VulnBack(t) [] kind = "fragd" -> FragdBack(t)
             [] kind = "fragc" -> FragcBack(t) [] kind = "exp" -> ExpBack(t)
             [] kind = "gmfset" -> GmfsetBack(t) [] OTHER -> GmfcollBack(t)
\* tables without rows have no file
Stored(m) == {rt \in DOMAIN Rows(m) : Rows(m)[rt] # <<>>}
=============================================================================
