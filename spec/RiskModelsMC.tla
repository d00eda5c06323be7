---------------------------- MODULE RiskModelsMC ----------------------------
EXTENDS RiskModels, Json
CONSTANTS MaxOps, LossTypes
VARIABLES files, last, hist
vars == <<files, last, hist>>
F(id, lr, cv) == [id |-> id, dist |-> "LN", lr |-> <<lr>>, cv |-> <<cv>>]
S(imt, iml, funs) == [id |-> "s", cat |-> "buildings", loss |-> "x", imt |-> imt, imls |-> <<iml>>, funs |-> funs]
V(sets) == [kind |-> "vuln", sets |-> sets]
Small == << V(<<S("PGA", "0.1", <<F("RC1", "0.5", "0.1")>>)>>),
            V(<<S("PGV", "0.2", <<F("RC1", "0.25", "0.0"), F("W2", "0.0", "0.0")>>)>>),
            V(<<S("PGA", "0.1", <<F("W2", "0.5", "0.1")>>), S("MMI", "5.0", <<F("M3", "1.0", "0.2")>>)>>),
            V(<<S("PGA", "0.1", <<F("RC1", "0.5", "0.1")>>), S("MMI", "5.0", <<F("RC1", "1.0", "0.2")>>)>>),
            V(<<S("PGA", "0.1", <<F("W2", "0.0", "0.1"), F("M3", "1.0", "0.2")>>)>>) >>
Bad(n) == n >= 4
Keys == {Key(lt, r) : lt \in LossTypes, r \in BOOLEAN}
Lists == {<<lt>> : lt \in LossTypes} \cup {<<a, b>> : a \in LossTypes, b \in LossTypes}
Nothing == [ok |-> TRUE, lts |-> <<>>, retro |-> FALSE, models |-> <<>>]
Init == files = <<>> /\ last = Nothing /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Write(key, n) == /\ files' = (key :> Small[n]) @@ files /\ UNCHANGED last
                 /\ Op([op |-> "write", key |-> key, m |-> n, lts |-> <<>>, retro |-> FALSE])
Load(lts, retro) ==
    /\ last' = IF AtFault(files, lts, retro) # {} THEN [ok |-> FALSE, lts |-> lts, retro |-> retro, models |-> <<>>]
               ELSE [ok |-> TRUE, lts |-> lts, retro |-> retro, models |-> Loaded(files, lts, retro)]
    /\ UNCHANGED files /\ Op([op |-> "load", key |-> "", m |-> 0, lts |-> lts, retro |-> retro])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in Keys, n \in 1..Len(Small) : k \notin DOMAIN files /\ Write(k, n)
           \/ \E l \in Lists, r \in BOOLEAN : Load(l, r)
\* every function of every file wanted is found, under its loss type, and no other
Pairs == {<<t, lt>> \in (DOMAIN last.models) \X LossTypes : lt \in DOMAIN last.models[t]}
Wanted2 == UNION {{<<t, lt>> : t \in Taxonomies(File(files, lt, last.retro))} : lt \in Wanted(files, last.lts, last.retro)}
ExactlyPairs == (hist # <<>> /\ hist[Len(hist)].op = "load" /\ last.ok) => Pairs = Wanted2
Values == (hist # <<>> /\ hist[Len(hist)].op = "load" /\ last.ok) =>
    \A p \in Pairs : \E f \in RangeOf(Functions(File(files, p[2], last.retro))) :
        f.tax = p[1] /\ last.models[p[1]][p[2]].imt = f.imt /\ last.models[p[1]][p[2]].lr = f.lr
\* the bad files are refused, and only those
Refusals == (hist # <<>> /\ hist[Len(hist)].op = "load") =>
    (last.ok = ~(\E lt \in Wanted(files, last.lts, last.retro) : \E n \in 1..Len(Small) :
        Bad(n) /\ File(files, lt, last.retro) = Small[n]))
\* the order of the loss types makes no difference, a repeated one neither
OrderFree == last.ok => Loaded(files, last.lts, last.retro) =
    Loaded(files, [n \in 1..Len(last.lts) |-> last.lts[Len(last.lts) + 1 - n]], last.retro)
Names == \A lt \in LossTypes : LossType(CostType(lt)) = lt
Spec == Init /\ [][Next]_vars
View == <<files, last, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
Emit == (Len(hist) = MaxOps /\ hist[Len(hist)].op = "load") => PrintT("SCN " \o ToJson([ops |-> hist]))

\* damage models: a bounded family of fragility models
FragD(nls, nsets, ndl) == [kind |-> "fragd", desc |-> "d", ls |-> [n \in 1..nls |-> <<"slight", "heavy">>[n]],
    sets |-> [n \in 1..nsets |-> [tax |-> <<"RC1", "W2">>[n], ndl |-> IF n \in ndl THEN "0.05" ELSE "",
        imt |-> <<"PGA", "MMI">>[n], unit |-> "g", imls |-> <<"0.1", "0.2">>,
        poes |-> [j \in 1..nls |-> <<"0.5", IF j = 1 THEN "0.75" ELSE "1.0">>]]]]
FragC(nls, nsets, ndl) == [kind |-> "fragc", desc |-> "d", ls |-> [n \in 1..nls |-> <<"slight", "heavy">>[n]],
    sets |-> [n \in 1..nsets |-> [tax |-> <<"RC1", "W2">>[n], ndl |-> IF n \in ndl THEN "0.05" ELSE "", type |-> "lognormal",
        imt |-> <<"PGA", "MMI">>[n], unit |-> "g", min |-> "0.1", max |-> "2.0",
        pars |-> [j \in 1..nls |-> <<"1.5", IF j = 1 THEN "0.5" ELSE "2.5">>]]]]
Frags == {FragD(a, b, c) : a \in 1..2, b \in 1..2, c \in SUBSET {1, 2}}
         \cup {FragC(a, b, c) : a \in 1..2, b \in 1..2, c \in SUBSET {1, 2}}
DInit == /\ \E f \in Frags : files = ("f" :> f)
         /\ last = Nothing /\ hist = <<>>
DNext == UNCHANGED vars
Frag == files["f"]
\* a function per limit state, and one more state than functions
PerState == \A tax \in DOMAIN Damage(Frag) : Len(Damage(Frag)[tax].funs) + 1 = Len(States(Frag))
\* levels and probabilities go together, and the limit is the first level
Together == Frag.kind = "fragd" => \A tax \in DOMAIN Damage(Frag) : \A n \in 1..Len(Frag.ls) :
    LET f == Damage(Frag)[tax].funs[n] IN Len(f.imls) = Len(f.poes) /\ f.limit = f.imls[1]
AllSets == \A n \in 1..Len(Frag.sets) : Damage(Frag)[Frag.sets[n].tax].imt = Frag.sets[n].imt
DEmit == PrintT("SCN " \o ToJson(Frag))
=============================================================================
