-------------------------------- MODULE Tables --------------------------------
(* A table of records with unique constraints (openquake.commonlib.record).  *)
(*                                                                           *)
(* A record is a sequence of texts; a constraint is a sequence of column     *)
(* numbers, the first one being the primary key.  The table keeps, beside    *)
(* its content, one index per constraint, maintained incrementally: an       *)
(* operation looks at all the constraints first and touches the indexes only *)
(* if none is violated.  Invariants: no clash, and the indexes are exactly   *)
(* what the content says.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    uniq,   \* the constraints, a sequence of sequences of columns
    tab,    \* the content, a sequence of records
    idx,    \* one function key -> record per constraint
    out     \* outcome of the last operation

tvars == <<uniq, tab, idx, out>>

Key(r, c) == [j \in 1..Len(c) |-> r[c[j]]]

EmptyIdx(u) == [c \in 1..Len(u) |-> <<>>]
Restrict(f, S) == [x \in S |-> f[x]]
Without(f, k) == Restrict(f, DOMAIN f \ {k})
With(f, k, r) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN r ELSE f[x]]

IndexOf(t, u) ==
    [c \in 1..Len(u) |->
        [k \in {Key(t[p], u[c]) : p \in 1..Len(t)} |->
            t[CHOOSE p \in 1..Len(t) : Key(t[p], u[c]) = k]]]

\* Python positions: negative ones count from the end
Norm(i, n) == IF i < 0 THEN i + n ELSE i
InRange(i, n) == 0 <= Norm(i, n) /\ Norm(i, n) < n
InsertPos(i, n) == LET j == Norm(i, n) IN
                   IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j

InsertAt(s, p, r) == SubSeq(s, 1, p) \o <<r>> \o SubSeq(s, p + 1, Len(s))
RemoveAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]

\* does r clash with a stored record other than `old` (a set of 0/1 records)
Clash(ix, r, old) ==
    \E c \in 1..Len(uniq) :
        LET k == Key(r, uniq[c]) IN
        k \in DOMAIN ix[c] /\ ix[c][k] \notin old

Init == /\ tab = <<>>
        /\ idx = EmptyIdx(uniq)
        /\ out = "ok"

Refuse(why) == out' = why /\ UNCHANGED <<tab, idx, uniq>>

Insert(p, r) ==
    IF Clash(idx, r, {}) THEN Refuse("KeyError")
    ELSE /\ tab' = InsertAt(tab, InsertPos(p, Len(tab)), r)
         /\ idx' = [c \in 1..Len(uniq) |-> With(idx[c], Key(r, uniq[c]), r)]
         /\ out' = "ok"
         /\ UNCHANGED uniq

Append1(r) == Insert(Len(tab), r)

Replace(i, r) ==
    IF ~InRange(i, Len(tab)) THEN Refuse("IndexError")
    ELSE LET p == Norm(i, Len(tab))
             old == tab[p + 1] IN
         IF Clash(idx, r, {old}) THEN Refuse("KeyError")
         ELSE /\ tab' = [tab EXCEPT ![p + 1] = r]
              /\ idx' = [c \in 1..Len(uniq) |->
                           With(Without(idx[c], Key(old, uniq[c])),
                                Key(r, uniq[c]), r)]
              /\ out' = "ok"
              /\ UNCHANGED uniq

Delete(i) ==
    IF ~InRange(i, Len(tab)) THEN Refuse("IndexError")
    ELSE LET p == Norm(i, Len(tab))
             old == tab[p + 1] IN
         /\ tab' = RemoveAt(tab, p)
         /\ idx' = [c \in 1..Len(uniq) |->
                      Without(idx[c], Key(old, uniq[c]))]
         /\ out' = "ok"
         /\ UNCHANGED uniq

\* remove the first record equal to r
Remove(r) ==
    IF \A p \in 1..Len(tab) : tab[p] # r THEN Refuse("ValueError")
    ELSE Delete((CHOOSE p \in 1..Len(tab) : tab[p] = r) - 1)

Reverse == /\ tab' = Rev(tab)
           /\ out' = "ok"
           /\ UNCHANGED <<idx, uniq>>

\* add a sequence of records: those before the first refused one stay
RECURSIVE ExtendTo(_, _, _)
ExtendTo(t, ix, rs) ==
    IF rs = <<>> THEN [tab |-> t, idx |-> ix, out |-> "ok"]
    ELSE IF Clash(ix, Head(rs), {})
         THEN [tab |-> t, idx |-> ix, out |-> "KeyError"]
    ELSE ExtendTo(Append(t, Head(rs)),
                  [c \in 1..Len(uniq) |->
                     With(ix[c], Key(Head(rs), uniq[c]), Head(rs))],
                  Tail(rs))

Extend(rs) == LET e == ExtendTo(tab, idx, rs) IN
              /\ tab' = e.tab /\ idx' = e.idx /\ out' = e.out
              /\ UNCHANGED uniq

\* the record stored under a primary key, as a 0/1-element sequence
FoundIn(ix, k) == IF k \in DOMAIN ix[1] THEN <<ix[1][k]>> ELSE <<>>
Found(k) == FoundIn(idx, k)

-----------------------------------------------------------------------------
NoClash == \A p, q \in 1..Len(tab) : \A c \in 1..Len(uniq) :
              p # q => Key(tab[p], uniq[c]) # Key(tab[q], uniq[c])
IndexExact == idx = IndexOf(tab, uniq)
LookupExact == \A p \in 1..Len(tab) : Found(Key(tab[p], uniq[1])) = <<tab[p]>>
RefusedUnchanged == [][out' # "ok" => (tab' = tab \/ Len(tab') > Len(tab))]_tvars
=============================================================================
