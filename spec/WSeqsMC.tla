------------------------------- MODULE WSeqsMC -------------------------------
EXTENDS WSeqs, Json
CONSTANTS Depth, Small, MaxSeqs
VARIABLE hist

X == IF Small THEN {"a", "b"} ELSE {"a", "b", "c", "d", "e"}
W == IF Small THEN {1, 2} ELSE 0..9
P == IF Small THEN {0, -1} ELSE -3..5
MCInit == Init /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
N == Len(seqs)

MCNext ==
    /\ Len(hist) < Depth
    /\ \/ \E i \in 1..N, x \in X, w \in W : AppendTo(i, x, w) /\ Op([op |-> "append", i |-> i, x |-> x, w |-> w])
       \/ \E i \in 1..N, x \in {"a"}, w \in {1}, p \in P :
             InsertIn(i, p, x, w) /\ Op([op |-> "insert", i |-> i, p |-> p, x |-> x, w |-> w])
       \/ N < MaxSeqs /\ \E i, j \in 1..N : Add(i, j) /\ Op([op |-> "add", i |-> i, j |-> j])
       \/ N < MaxSeqs /\ \E i, j \in 1..N : Merge(<<i, j>>) /\ Op([op |-> "merge", is |-> <<i, j>>])
Scn == PrintT("SCN " \o ToJson([ops |-> hist]))
Emit == Len(hist) = Depth => Scn

RndPairs(n) == [q \in 1..n |-> <<RandomElement(X), RandomElement(W)>>]
SimNext ==
    \/ /\ Len(hist) < Depth
       /\ \E k \in {RandomElement(1..13)}, i \in {RandomElement(1..N)}, j \in {RandomElement(1..N)},
             x \in {RandomElement(X)}, w \in {RandomElement(W)}, p \in {RandomElement(P)},
             ps \in {RndPairs(RandomElement(0..4))},
             is \in {[q \in 1..RandomElement(0..4) |-> RandomElement(1..N)]} :
          IF k <= 3 THEN AppendTo(i, x, w) /\ Op([op |-> "append", i |-> i, x |-> x, w |-> w])
          ELSE IF k <= 6 THEN InsertIn(i, p, x, w) /\ Op([op |-> "insert", i |-> i, p |-> p, x |-> x, w |-> w])
          ELSE IF k <= 8 THEN Extend(i, ps) /\ Op([op |-> IF k = 7 THEN "extend" ELSE "iadd", i |-> i, ps |-> ps])
          ELSE IF N >= MaxSeqs THEN AppendTo(j, x, w) /\ Op([op |-> "append", i |-> j, x |-> x, w |-> w])
          ELSE IF k <= 10 THEN Add(i, j) /\ Op([op |-> "add", i |-> i, j |-> j])
          ELSE IF k <= 12 THEN Merge(is) /\ Op([op |-> "merge", is |-> is])
          ELSE New(ps) /\ Op([op |-> "new", ps |-> ps])
    \/ /\ Len(hist) = Depth
       /\ Scn
       /\ hist' = Append(hist, [op |-> "end"])
       /\ UNCHANGED seqs
Bound == \A i \in 1..N : Len(seqs[i].items) <= 3
NoHist == <<seqs>>
=============================================================================
