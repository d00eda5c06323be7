------------------------------- MODULE TablesMC -------------------------------
(* Bounded instance of Tables, and generator of histories for the replay.    *)
EXTENDS Tables, Json, IOUtils

CONSTANTS Depth,      \* length of the histories
          Small,      \* TRUE: small universe for exhaustive enumeration
          MaxLen

VARIABLE hist

\* three columns; values chosen so that clashes on either constraint occur
V == {"1", "2"}
RowsAll == {<<a, b, c>> : a \in {"1", "2", "3"}, b \in V, c \in V}
RowsSmall == {<<"1", "1", "1">>, <<"2", "1", "2">>, <<"2", "1", "1">>}
Rows == IF Small THEN RowsSmall ELSE RowsAll
Uniqs == IF Small THEN {<< <<1>>, <<2, 3>> >>}
         ELSE {<< <<1>>, <<2, 3>> >>, << <<1, 2>>, <<3>> >>, << <<1>> >>,
               << <<1, 2>>, <<2, 3>>, <<3, 1>> >>}
Pos == IF Small THEN {0, 1} ELSE {-3, -1, 0, 1, 2, 7}

MCInit == /\ uniq \in Uniqs
          /\ Init
          /\ hist = <<>>

Op(o) == hist' = Append(hist, o)

MCNext ==
    /\ Len(hist) < Depth
    /\ \/ \E r \in Rows : Append1(r) /\ Op([op |-> "append", rec |-> r])
       \/ \E r \in Rows, p \in Pos : Insert(p, r) /\ Op([op |-> "insert", pos |-> p, rec |-> r])
       \/ \E r \in Rows, p \in Pos : Replace(p, r) /\ Op([op |-> "replace", pos |-> p, rec |-> r])
       \/ \E p \in Pos : Delete(p) /\ Op([op |-> "delete", pos |-> p])
       \/ Reverse /\ Op([op |-> "reverse"])
       \/ ~Small /\ \E r \in Rows : Remove(r) /\ Op([op |-> "remove", rec |-> r])
       \/ ~Small /\ \E r1, r2 \in Rows : Extend(<<r1, r2>>) /\ Op([op |-> "extend", recs |-> <<r1, r2>>])

Scn == PrintT("SCN " \o ToJson([uniq |-> uniq, ops |-> hist]))
Emit == Len(hist) = Depth => Scn

\* random walk: one randomly chosen enabled operation per step
SimNext ==
    \/ /\ Len(hist) < Depth
       /\ \E k \in {RandomElement(1..14)}, r \in {RandomElement(Rows)},
             r2 \in {RandomElement(Rows)}, p \in {RandomElement(Pos)},
             q \in {RandomElement(-1..3)} :
          IF k <= 4 THEN Append1(r) /\ Op([op |-> "append", rec |-> r])
          ELSE IF k <= 6 THEN Insert(p, r) /\ Op([op |-> "insert", pos |-> p, rec |-> r])
          ELSE IF k <= 9 THEN Replace(q, r) /\ Op([op |-> "replace", pos |-> q, rec |-> r])
          ELSE IF k = 10 THEN Delete(q) /\ Op([op |-> "delete", pos |-> q])
          ELSE IF k = 11 THEN Reverse /\ Op([op |-> "reverse"])
          ELSE IF k = 12 THEN Delete(q) /\ Op([op |-> "pop", pos |-> q])
          ELSE IF k = 13 THEN Remove(r) /\ Op([op |-> "remove", rec |-> r])
          ELSE Extend(<<r, r2>>) /\ Op([op |-> "extend", recs |-> <<r, r2>>])
    \/ /\ Len(hist) = Depth
       /\ Scn
       /\ hist' = Append(hist, [op |-> "end"])
       /\ UNCHANGED tvars

\* for plain checking the history is not part of the state
NoHist == <<uniq, tab, idx, out>>
Bound == Len(tab) <= MaxLen
=============================================================================
