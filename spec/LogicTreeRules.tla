---------------------------- MODULE LogicTreeRules ----------------------------
(* The rules a logic tree obeys, branch set by branch set: what is at fault  *)
(* when branch set `key` is taken in state `st`.  A fault is the error       *)
(* raised, the element it points at, and the document it names.              *)
EXTENDS LogicTree, Texts

Fault(what, l, n) == {[exc |-> "ValidationError", file |-> "",
                       where |-> what \o " " \o ToString(l) \o " " \o ToString(n)]}
FaultIn(what, l, n, j) == {[exc |-> "ValidationError", file |-> "",
                            where |-> what \o " " \o ToString(l) \o " "
                                      \o ToString(n) \o " " \o ToString(j)]}
If(c, S) == IF c THEN S ELSE {}

Filters(b) == If(b.trt # "", {"trt"}) \cup If(b.styp # "", {"styp"})
              \cup If(b.srcs # <<>>, {"srcs"})
Absolute == {"abGRAbsolute", "maxMagGRAbsolute"}
IsFloat(s) == Number(s).kind = "num"

\* rules on the branches, common to both trees
BranchFaults(st, b, l, n, units) ==
    UNION {If(b.branches[j].id \in DOMAIN st.child
              \/ \E h \in 1..(j - 1) : b.branches[h].id = b.branches[j].id,
              FaultIn("branch", l, n, j)) : j \in DOMAIN b.branches}
    \cup If(~SumsToOne(b.branches, units), Fault("branchset", l, n))

\* attachment by name: defined, of the previous level, and still open
AttachFaults(st, b, l, n) ==
    If(st.root # NoSet /\ b.apply # <<>> /\
       \/ \E h \in DOMAIN b.apply : \/ b.apply[h] \notin DOMAIN st.child
                                    \/ b.apply[h] \notin st.open
                                    \/ st.child[b.apply[h]] # NoSet
       \/ Cardinality(Range(b.apply)) # Len(b.apply),
       Fault("branchset", l, n))

\* ---------------------------------------------- source model logic trees
\* known: the sources of the source models of the tree
SourceSetFaults(st, doc, key, units, known) ==
    LET b == Set(doc, key)  l == key[1]  n == key[2]
        bad == Fault("branchset", l, n)
    IN  If(b.type = "sourceModel" /\ Filters(b) # {}, bad)
        \cup If(Cardinality(Filters(b)) > 1, bad)
        \cup If(b.trt # "" /\ \A x \in known : x.trt # b.trt, bad)
        \cup If(b.styp # "" /\ \A x \in known : x.type # b.styp, bad)
        \cup If(\E h \in DOMAIN b.srcs : \A x \in known : x.id # b.srcs[h], bad)
        \cup If(b.type \in Absolute /\ ~(Filters(b) = {"srcs"} /\ Len(b.srcs) = 1), bad)
        \cup If(l = 1 /\ (n > 1 \/ b.type # "sourceModel"), bad)
        \cup If(l > 1 /\ b.type \in {"sourceModel", "gmpeModel"}, bad)
        \cup BranchFaults(st, b, l, n, units)
        \cup AttachFaults(st, b, l, n)

Pair(s) == LET w == Words(s) IN Len(w) = 2 /\ IsFloat(w[1]) /\ IsFloat(w[2])
SourceValueFaults(doc, key, files) ==
    LET b == Set(doc, key)  l == key[1]  n == key[2] IN
    UNION {LET v == b.branches[j].val IN
           CASE b.type = "sourceModel" ->
                  If(\A f \in files : ~(f.name = v /\ f.state = "ok"),
                     {[exc |-> "ParsingError", where |-> "", file |-> v]})
             [] b.type = "abGRAbsolute" -> If(~Pair(v), FaultIn("model", l, n, j))
             [] OTHER -> If(~IsFloat(v), FaultIn("model", l, n, j))
           : j \in DOMAIN b.branches}

\* --------------------------------------------- ground motion logic trees
GmpeSetFaults(st, doc, key, units, known, gsims) ==
    LET b == Set(doc, key)  l == key[1]  n == key[2]
        bad == Fault("branchset", l, n)
    IN  If(Filters(b) # {"trt"}, bad)
        \cup If(b.trt \in st.trts, bad)
        \cup If(b.type # "gmpeModel", bad)
        \cup If(n # 1, bad)
        \cup UNION {If(b.branches[j].val \notin gsims, FaultIn("model", l, n, j))
                    : j \in DOMAIN b.branches}
        \cup BranchFaults(st, b, l, n, units)

\* branch sets for regions that are not known are left out
GmpeKeys(doc, known) == {key \in AllKeys(doc) :
                            Set(doc, key).trt = "" \/ Set(doc, key).trt \in known}
=============================================================================
