------------------------------ MODULE LogicTree ------------------------------
(* Logic trees of openquake.commonlib.logictree.                             *)
(*                                                                           *)
(* A document is a sequence of levels, a level a sequence of branch sets, a  *)
(* branch set a record                                                       *)
(*   [type, apply, trt, styp, srcs, branches]                                *)
(* where apply is the sequence of branch identifiers it is attached to (<<>> *)
(* for "the branches of the previous level that are still open"), trt, styp  *)
(* and srcs its filters ("" or <<>> when absent) and branches a sequence of  *)
(* [id, w, val]; w is a number of hundredths.                                *)
(*                                                                           *)
(* Reading is a machine that takes the branch sets one at a time, in         *)
(* document order; its state holds the branches defined so far, the branch   *)
(* set that follows each, and the open ends.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}

RECURSIVE SumW(_)
SumW(bs) == IF bs = <<>> THEN 0 ELSE Head(bs).w + SumW(Tail(bs))
\* a weight may have digits far below the unit, counted apart
Tiny(br) == IF "e" \in DOMAIN br THEN br.e ELSE 0
RECURSIVE SumE(_)
SumE(bs) == IF bs = <<>> THEN 0 ELSE Tiny(Head(bs)) + SumE(Tail(bs))
SumsToOne(bs, units) == SumW(bs) = units /\ SumE(bs) = 0

NoSet == <<0, 0>>                       \* no branch set follows this branch

Set(doc, key) == doc[key[1]][key[2]]
BranchIds(b) == {b.branches[j].id : j \in DOMAIN b.branches}

\* ------------------------------------------------------------- reading
Start == [child |-> <<>>,               \* branch id -> key of what follows it
          open |-> {},                  \* open ends of the previous level
          new |-> {},                   \* branches of this level
          root |-> NoSet,
          trts |-> {}]                  \* regions with a branch set

\* which branches does this branch set follow
Targets(st, b) ==
    IF b.apply # <<>> THEN Range(b.apply)
    ELSE {x \in st.open : st.child[x] = NoSet}

\* the state after the branch set `key` has been taken
Take(st, doc, key) ==
    LET b == Set(doc, key)
        ids == BranchIds(b)
        tgt == IF st.root = NoSet THEN {} ELSE Targets(st, b)
        old == [x \in DOMAIN st.child |->
                  IF x \in tgt THEN key ELSE st.child[x]]
    IN [child |-> [x \in ids |-> NoSet] @@ old,
        open |-> st.open,
        new |-> st.new \cup ids,
        root |-> IF st.root = NoSet THEN key ELSE st.root,
        trts |-> st.trts \cup {b.trt}]

\* a level of which nothing has been kept changes nothing
EndLevel(st) == IF st.new = {} THEN st
                ELSE [st EXCEPT !.open = st.new, !.new = {}]

\* keep: the branch sets that are not left out
AllKeys(doc) == UNION {{<<l, n>> : n \in DOMAIN doc[l]} : l \in DOMAIN doc}
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(st, doc, key, keep) ==
    IF key[1] > Len(doc) THEN st
    ELSE IF key[2] > Len(doc[key[1]])
         THEN ReadFrom(EndLevel(st), doc, <<key[1] + 1, 1>>, keep)
         ELSE ReadFrom(IF key \in keep THEN Take(st, doc, key) ELSE st,
                       doc, <<key[1], key[2] + 1>>, keep)

Read(doc, keep) == ReadFrom(Start, doc, <<1, 1>>, keep)

\* ----------------------------------------------------------- the paths
\* a path is the sequence of its branches, root first
RECURSIVE PathsFrom(_, _, _), Through(_, _, _, _)
Through(st, doc, key, j) ==
    IF j > Len(Set(doc, key).branches) THEN <<>>
    ELSE LET br == Set(doc, key).branches[j]
             rest == IF st.child[br.id] = NoSet THEN << <<>> >>
                     ELSE PathsFrom(st, doc, st.child[br.id])
         IN [n \in DOMAIN rest |-> <<br>> \o rest[n]]
            \o Through(st, doc, key, j + 1)
PathsFrom(st, doc, key) == Through(st, doc, key, 1)
Paths(st, doc) == PathsFrom(st, doc, st.root)

\* hundredths are multiplied exactly: a path of n branches is a number of
\* 10^-2n; levels below are padded so that all paths share the scale
RECURSIVE Product(_)
Product(path) == IF path = <<>> THEN 1
                 ELSE Head(path).w * Product(Tail(path))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE SumOver(_, _, _)
SumOver(paths, unit, scale) ==
    IF paths = <<>> THEN 0
    ELSE Product(Head(paths)) * Pow(unit, scale - Len(Head(paths)))
         + SumOver(Tail(paths), unit, scale)

\* ------------------------------------------------------------ sampling
\* A roll is a number of millionths; the interval of a branch goes from the
\* sum of the weights before it to that sum plus its own weight.
RECURSIVE Before(_, _)
Before(bs, j) == IF j = 1 THEN 0 ELSE Before(bs, j - 1) + bs[j - 1].w
Holds(bs, j, roll, unit) ==
    LET m == IF unit > 1000000 THEN 1 ELSE 1000000 \div unit IN
    /\ bs[j].w > 0
    /\ Before(bs, j) * m <= roll
    /\ roll <= (Before(bs, j) + bs[j].w) * m
=============================================================================
