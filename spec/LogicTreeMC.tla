----------------------------- MODULE LogicTreeMC -----------------------------
(* Bounded instance: every tree of a few levels is read branch set by branch *)
(* set, then walked from the root.  Also prints the trees for the replay.    *)
EXTENDS LogicTree, Json

CONSTANTS MaxLevels, MaxBranches, Pairs,  \* Pairs: two branch sets in a level
          Units,                          \* weights are numbers of 1/Units
          Zero                            \* some branches have no weight

VARIABLES doc, key, st, phase, path

vars == <<doc, key, st, phase, path>>

Splits(n) == CASE n = 1 -> {<<Units>>}
               [] n = 2 -> {<<1, Units - 1>>} \cup (IF Zero THEN {<<0, Units>>} ELSE {})
               [] OTHER -> {<<1, 1, Units - 2>>}

Name(l, n, j) == "b" \o ToString(l) \o ToString(n) \o ToString(j)
MkSet(l, n, ap, ws) ==
    [type |-> IF l = 1 THEN "sourceModel" ELSE "bGRRelative",
     apply |-> ap, trt |-> "", styp |-> "", srcs |-> <<>>,
     branches |-> [j \in DOMAIN ws |->
                      [id |-> Name(l, n, j), w |-> ws[j], val |-> Name(l, n, j)]]]

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

AllSplits == UNION {Splits(n) : n \in 1..MaxBranches}
OpenIds == UNION {BranchIds(doc[Len(doc)][n]) : n \in DOMAIN doc[Len(doc)]}

Init == /\ \E ws \in AllSplits : doc = << <<MkSet(1, 1, <<>>, ws)>> >>
        /\ key = <<1, 1>>
        /\ st = Start
        /\ phase = "write"
        /\ path = <<>>

\* the document is written first
AddLevel ==
    /\ phase = "write"
    /\ Len(doc) < MaxLevels
    /\ LET l == Len(doc) + 1 IN
       \E S \in SUBSET OpenIds, ws \in AllSplits :
         \/ doc' = Append(doc, <<MkSet(l, 1, AsSeq(S), ws)>>)
         \/ /\ Pairs /\ S # {} /\ S # OpenIds
            /\ \E S2 \in {{}, OpenIds \ S}, ws2 \in Splits(1) \cup Splits(2) :
                 doc' = Append(doc, <<MkSet(l, 1, AsSeq(S), ws),
                                      MkSet(l, 2, AsSeq(S2), ws2)>>)
    /\ UNCHANGED <<key, st, phase, path>>

Written == phase = "write" /\ phase' = "read" /\ UNCHANGED <<doc, key, st, path>>

TakeSet == /\ phase = "read"
           /\ key[1] <= Len(doc)
           /\ key[2] <= Len(doc[key[1]])
           /\ st' = Take(st, doc, key)
           /\ key' = <<key[1], key[2] + 1>>
           /\ UNCHANGED <<doc, phase, path>>
NextLevel == /\ phase = "read"
             /\ key[1] <= Len(doc)
             /\ key[2] > Len(doc[key[1]])
             /\ st' = EndLevel(st)
             /\ key' = <<key[1] + 1, 1>>
             /\ UNCHANGED <<doc, phase, path>>
Done == /\ phase = "read"
        /\ key[1] > Len(doc)
        /\ phase' = "walk"
        /\ key' = st.root
        /\ UNCHANGED <<doc, st, path>>

\* one number is drawn, and the branch whose interval holds it followed
Walk(roll) ==
    /\ phase = "walk"
    /\ key # NoSet
    /\ \E j \in DOMAIN Set(doc, key).branches :
         /\ Holds(Set(doc, key).branches, j, roll, Units)
         /\ path' = Append(path, Set(doc, key).branches[j])
         /\ key' = st.child[Set(doc, key).branches[j].id]
    /\ UNCHANGED <<doc, st, phase>>

Next == AddLevel \/ Written \/ TakeSet \/ NextLevel \/ Done
        \/ \E roll \in {0, 250000, 999999} : Walk(roll)

Spec == Init /\ [][Next]_vars

\* --- properties
Ready == phase = "walk" /\ path = <<>>
PathsOnce == Ready => Cardinality(Range(Paths(st, doc))) = Len(Paths(st, doc))
WeightsSumToOne ==
    Ready => SumOver(Paths(st, doc), Units, MaxLevels) = Pow(Units, MaxLevels)
\* every branch is on some path, unless its set follows nothing
NoneLost ==
    Ready => \A x \in DOMAIN st.child :
               (\E n \in DOMAIN Paths(st, doc) :
                  \E j \in DOMAIN Paths(st, doc)[n] : Paths(st, doc)[n][j].id = x)
FollowsPrevious ==
    \A x \in DOMAIN st.child :
        st.child[x] # NoSet =>
          LET prev == doc[st.child[x][1] - 1] IN
          \E n \in DOMAIN prev : x \in BranchIds(prev[n])
WalksArePaths ==
    phase = "walk" /\ key = NoSet => path \in Range(Paths(st, doc))
NoZeroWeight == \A j \in DOMAIN path : path[j].w > 0
\* the interpretation used for the traces is this machine
SameAsRead == Ready => st = Read(doc, AllKeys(doc))
\* a walk never gets stuck
WalkGoesOn == phase = "walk" /\ key # NoSet => ENABLED Next

\* --- documents for the replay
WriteNext == AddLevel \/ Written
EmitDoc == phase = "read" => PrintT("SCN " \o ToJson([doc |-> doc]))

\* larger ones, at random; weights are hundredths
SimSplits == <<
    << <<100>> >>,
    << <<50, 50>>, <<30, 70>>, <<1, 99>>, <<0, 100>>, <<100, 0>>, <<33, 67>> >>,
    << <<20, 30, 50>>, <<25, 25, 50>>, <<0, 0, 100>>, <<7, 0, 93>> >>,
    << <<10, 20, 30, 40>>, <<25, 25, 25, 25>>, <<0, 50, 0, 50>> >> >>
SimWeights == LET n == RandomElement({1, 1, 2, 2, 3, 4})
              IN SimSplits[n][RandomElement(1..Len(SimSplits[n]))]
SimTree == LET ws == SimWeights IN <<MkSet(1, 1, <<>>, ws)>>
RECURSIVE SimLevel(_, _, _, _)
SimLevel(l, n, left, more) ==
    IF more = 0 \/ left = {} THEN <<>>
    ELSE LET S == RandomElement(SUBSET left)
             ws == SimWeights
         IN IF S = {} THEN <<MkSet(l, n, <<>>, ws)>>
            ELSE <<MkSet(l, n, AsSeq(S), ws)>> \o SimLevel(l, n + 1, left \ S, more - 1)
SimInit == doc = <<>> /\ key = <<1, 1>> /\ st = Start /\ phase = "write" /\ path = <<>>
SimNext ==
    \/ /\ phase = "write" /\ doc = <<>>
       /\ \E d \in {SimTree} : doc' = <<d>>
       /\ UNCHANGED <<key, st, phase, path>>
    \/ /\ phase = "write" /\ Len(doc) \in 1..(MaxLevels - 1)
       /\ \E d \in {SimLevel(Len(doc) + 1, 1, OpenIds, RandomElement(1..3))} :
            doc' = Append(doc, d)
       /\ UNCHANGED <<key, st, phase, path>>
    \/ /\ phase = "write" /\ Len(doc) = MaxLevels
       /\ PrintT("SCN " \o ToJson([doc |-> doc]))
       /\ phase' = "end"
       /\ UNCHANGED <<doc, key, st, path>>

=============================================================================
