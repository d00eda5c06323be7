------------------------------ MODULE TableSets ------------------------------
(* A set of tables with unique constraints and foreign keys                  *)
(* (openquake.commonlib.record.TableSet).                                    *)
(*                                                                           *)
(* The schema is a sequence of record types in definition order; a type has  *)
(* a name, its constraints (sequences of columns, the primary key first) and *)
(* its foreign keys [cols, to, on]: the values of cols must be the key of    *)
(* some record of type number `to` for its constraint number `on`.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES schema, tabs, out
svars == <<schema, tabs, out>>

Key(r, c) == [j \in 1..Len(c) |-> r[c[j]]]

Types == 1..Len(schema)

Missing(ts, t, r) ==
    \E f \in 1..Len(schema[t].fks) :
        LET fk == schema[t].fks[f]
            u == schema[fk.to].uniq[fk.on] IN
        ~\E p \in 1..Len(ts[fk.to]) : Key(ts[fk.to][p], u) = Key(r, fk.cols)

Clash(ts, t, r) ==
    \E c \in 1..Len(schema[t].uniq), p \in 1..Len(ts[t]) :
        Key(ts[t][p], schema[t].uniq[c]) = Key(r, schema[t].uniq[c])

\* the ways a record may be refused; none if it must be accepted
Refusals(ts, t, r) ==
    (IF Missing(ts, t, r) THEN {"ForeignKeyError"} ELSE {}) \cup
    (IF Clash(ts, t, r) THEN {"KeyError"} ELSE {})

Added(ts, t, r) == [ts EXCEPT ![t] = Append(@, r)]

Init == /\ tabs = [t \in Types |-> <<>>]
        /\ out = "ok"

Insert(t, r) ==
    LET why == Refusals(tabs, t, r) IN
    /\ UNCHANGED schema
    /\ IF why = {} THEN tabs' = Added(tabs, t, r) /\ out' = "ok"
       ELSE UNCHANGED tabs /\ out' \in why

\* the content after a bulk insertion and the ways it may have been refused
RECURSIVE Bulk(_, _)
Bulk(ts, rs) ==
    IF rs = <<>> THEN [tabs |-> ts, why |-> {}]
    ELSE LET t == Head(rs).t  r == Head(rs).rec  why == Refusals(ts, t, r) IN
         IF why # {} THEN [tabs |-> ts, why |-> why]
         ELSE Bulk(Added(ts, t, r), Tail(rs))

InsertAll(rs) ==
    LET b == Bulk(tabs, rs) IN
    /\ UNCHANGED schema
    /\ tabs' = b.tabs
    /\ out' \in (IF b.why = {} THEN {"ok"} ELSE b.why)

RemoveAt(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))

\* a record is removed directly from its table
Delete(t, p) ==
    /\ UNCHANGED schema
    /\ IF p \in 1..Len(tabs[t])
       THEN tabs' = [tabs EXCEPT ![t] = RemoveAt(@, p)] /\ out' = "ok"
       ELSE UNCHANGED tabs /\ out' = "IndexError"

\* iterating over the set
NonEmpty(ts) == SelectSeq([t \in Types |-> t], LAMBDA t : Len(ts[t]) > 0)
-----------------------------------------------------------------------------
NoClash == \A t \in Types : \A p, q \in 1..Len(tabs[t]) :
             \A c \in 1..Len(schema[t].uniq) :
               p # q => Key(tabs[t][p], schema[t].uniq[c])
                        # Key(tabs[t][q], schema[t].uniq[c])
\* as long as nothing is deleted every reference is satisfied
NoDangling == \A t \in Types : \A p \in 1..Len(tabs[t]) :
                ~Missing(tabs, t, tabs[t][p])
=============================================================================
