----------------------------- MODULE TableSetsMC -----------------------------
(* Bounded instances of TableSets and generators of histories.               *)
EXTENDS TableSets, Json

CONSTANTS Depth, Mode, MaxLen
VARIABLE hist

T(n, c, u, f) == [name |-> n, cols |-> c, uniq |-> u, fks |-> f]
FK(c, to, on) == [cols |-> c, to |-> to, on |-> on]

\* made-up schemas: a chain; a diamond; a reference to a secondary key
Chain == << T("A", 2, << <<1>> >>, <<>>),
            T("B", 3, << <<1, 2>> >>, <<FK(<<1>>, 1, 1)>>),
            T("C", 3, << <<1, 2, 3>> >>, <<FK(<<1, 2>>, 2, 1)>>) >>
Diamond == << T("P", 2, << <<1>>, <<2>> >>, <<>>),
              T("Q", 2, << <<1, 2>> >>, <<FK(<<2>>, 1, 2)>>),
              T("R", 3, << <<1>> >>, <<FK(<<1, 3>>, 2, 1), FK(<<2>>, 1, 1)>>) >>
Tiny == << T("A", 1, << <<1>> >>, <<>>),
           T("B", 2, << <<2>> >>, <<FK(<<1>>, 1, 1)>>) >>

\* the families shipped with the library
Vulnerability ==
  << T("DiscreteVulnerabilitySet", 4, << <<1>> >>, <<>>),
     T("DiscreteVulnerability", 3, << <<1, 2>> >>, <<FK(<<1>>, 1, 1)>>),
     T("DiscreteVulnerabilityData", 5, << <<1, 2, 3>> >>, <<FK(<<1, 2>>, 2, 1)>>) >>
FragilityDiscrete ==
  << T("FragilityDiscrete", 3, << <<1>> >>, <<>>),
     T("FFLimitStateDiscrete", 1, << <<1>> >>, <<>>),
     T("FFSetDiscrete", 5, << <<1>> >>, <<>>),
     T("FFDataDiscrete", 4, << <<1, 2, 3>> >>, <<>>) >>
FragilityContinuous ==
  << T("FragilityContinuous", 3, << <<1>> >>, <<>>),
     T("FFLimitStateContinuous", 1, << <<1>> >>, <<>>),
     T("FFSetContinuous", 8, << <<1>> >>, <<>>),
     T("FFDataContinuous", 4, << <<1, 2, 3>> >>, <<>>) >>
Exposure ==
  << T("Location", 3, << <<1>>, <<2, 3>> >>, <<>>),
     T("Exposure", 8, << <<1>> >>, <<>>),
     T("CostType", 5, << <<1>> >>, <<>>),
     T("Asset", 5, << <<2>> >>, <<>>),
     T("Occupancy", 3, << <<1, 2>> >>, <<>>),
     T("Cost", 6, << <<1, 2>> >>, <<>>) >>
GmfCollection ==
  << T("GmfCollection", 2, << <<1, 2>> >>, <<>>),
     T("GmfSet", 2, << <<1>> >>, <<>>),
     T("Gmf", 3, << <<1, 2, 3>> >>, <<>>),
     T("GmfData", 6, << <<1, 2, 3, 4, 5>> >>, <<>>) >>

Families == <<[kind |-> "made", schema |-> Chain],
              [kind |-> "made", schema |-> Diamond],
              [kind |-> "Vulnerability", schema |-> Vulnerability],
              [kind |-> "FragilityDiscrete", schema |-> FragilityDiscrete],
              [kind |-> "FragilityContinuous", schema |-> FragilityContinuous],
              [kind |-> "Exposure", schema |-> Exposure],
              [kind |-> "GmfCollection", schema |-> GmfCollection]>>

KindOf(s) == (CHOOSE f \in 1..Len(Families) : Families[f].schema = s)

MCInit == /\ schema \in (CASE Mode = "check" -> {Chain, Diamond}
                           [] Mode = "enum" -> {Tiny}
                           [] OTHER -> {Families[n].schema : n \in 1..Len(Families)} \cup {Tiny})
          /\ Init
          /\ hist = <<>>

V == {"1", "2"}
Rows(t) == [1..schema[t].cols -> V]
Op(o) == hist' = Append(hist, o)

MCNext ==
    /\ Len(hist) < Depth
    /\ \/ \E t \in Types : \E r \in Rows(t) :
            Insert(t, r) /\ Op([op |-> "insert", t |-> t, rec |-> r])
       \/ \E t \in Types : Len(tabs[t]) > 0 /\ Mode = "enum" /\ Delete(t, 1)
            /\ Op([op |-> "delete", t |-> t, pos |-> 1])
NoHist == <<schema, tabs, out>>
Bound == \A t \in Types : Len(tabs[t]) <= MaxLen

Scn == PrintT("SCN " \o ToJson(
          [kind |-> IF schema = Tiny THEN "made" ELSE Families[KindOf(schema)].kind,
           schema |-> schema, ops |-> hist]))
Emit == Len(hist) = Depth => Scn

\* one random operation per step; walks favour the first types
SimNext ==
    \/ /\ Len(hist) < Depth
       /\ \E k \in {RandomElement(1..10)}, t \in {RandomElement(Types)},
             t0 \in {RandomElement(Types)}, p \in {RandomElement(1..3)} :
          IF k <= 6
          THEN \E r \in {RandomElement(Rows(t))} :
               Insert(t, r) /\ Op([op |-> "insert", t |-> t, rec |-> r])
          ELSE IF k <= 8
          THEN \E rs \in {[j \in 1..4 |-> LET x == RandomElement(Types) IN
                             [t |-> x, rec |-> RandomElement(Rows(x))]]} :
               InsertAll(rs) /\ Op([op |-> "insert_all", recs |-> rs])
          ELSE Delete(t0, p) /\ Op([op |-> "delete", t |-> t0, pos |-> p])
    \/ /\ Len(hist) = Depth
       /\ Scn
       /\ hist' = Append(hist, [op |-> "end"])
       /\ UNCHANGED svars
=============================================================================
