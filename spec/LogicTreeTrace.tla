---------------------------- MODULE LogicTreeTrace ----------------------------
(* What the real readers make of a logic tree, judged by the specification.  *)
EXTENDS LogicTreeRules, TraceBase

VARIABLES k, verdict

T == Traces[k]
TraceInit == k \in 1..Len(Traces) /\ verdict = "ok"

Gsims == {"AkkarBommer2010", "BooreAtkinson2008", "CauzziFaccioli2008",
          "ChiouYoungs2008", "Campbell2003SHARE", "ToroEtAl2002SHARE",
          "ZhaoEtAl2006Asc", "FaccioliEtAl2010", "SadighEtAl1997",
          "AbrahamsonSilva2008"}

Ids(path) == [n \in DOMAIN path |-> path[n].id]
IdSet(path) == Range(Ids(path))
KnownTrts == Range(T.known)

\* ------------------------------------------------------- enumeration (L01)
RlzOf(path) == [value |-> path[1].val, path |-> Ids(path),
                num |-> Product(path) * Pow(T.units, Len(T.doc) - Len(path))]
JudgePaths ==
    LET P == Paths(Read(T.doc, AllKeys(T.doc)), T.doc)
        R == [n \in DOMAIN P |-> RlzOf(P[n])]
    IN Then(FirstFailing(<<
        <<"reading-a-valid-tree-fails-with-" \o T.out, T.out = "ok">>,
        <<"a-path-is-missing", \A n \in DOMAIN R : \E m \in DOMAIN T.rlzs :
                                   T.rlzs[m].path = R[n].path>>,
        <<"not-a-path-of-the-tree", \A m \in DOMAIN T.rlzs : \E n \in DOMAIN R :
                                   T.rlzs[m].path = R[n].path>>,
        <<"a-path-is-repeated", Len(T.rlzs) = Len(R)>> >>), <<
        <<"document-order", \A n \in DOMAIN R : T.rlzs[n].path = R[n].path>>,
        <<"weight-is-the-product", \A n \in DOMAIN R : T.rlzs[n].num = R[n].num>>,
        <<"value-is-that-of-the-root-branch", \A n \in DOMAIN R : T.rlzs[n].value = R[n].value>>,
        <<"weights-sum-to-one", SumOver(P, T.units, Len(T.doc)) = Pow(T.units, Len(T.doc))>>,
        <<"iterating-again-gives-the-same", T.again = T.rlzs>> >>)

\* -------------------------------------------------------- validation (L02)
Files == Range(T.files)
RootFiles == {T.doc[1][n].branches[j].val : <<n, j>> \in
                {p \in (DOMAIN T.doc[1]) \X (1..9) :
                    p[2] \in DOMAIN T.doc[1][p[1]].branches}}
KnownAt(l) == IF l = 1 THEN {}
              ELSE UNION {Range(f.sources) : f \in {g \in Files : g.name \in RootFiles}}

FaultsAt(st, key) ==
    IF T.kind = "source"
    THEN SourceSetFaults(st, T.doc, key, T.units, KnownAt(key[1]))
         \cup SourceValueFaults(T.doc, key, Files)
    ELSE GmpeSetFaults(st, T.doc, key, T.units, KnownTrts, Gsims)

\* an unnamed attachment with nothing left to attach to is not decided
Vague(st, key) == /\ T.kind = "source" /\ st.root # NoSet
                  /\ Set(T.doc, key).apply = <<>>
                  /\ Targets(st, Set(T.doc, key)) = {}

VagueMark == [exc |-> "?", where |-> "", file |-> ""]
RECURSIVE FirstFaults(_, _, _)
FirstFaults(st, key, keep) ==
    IF key[1] > Len(T.doc)
    THEN (IF T.kind = "gmpe" /\ ~(KnownTrts \subseteq st.trts)
          THEN {[exc |-> "ValidationError", where |-> "tree", file |-> ""]} ELSE {})
    ELSE IF key[2] > Len(T.doc[key[1]])
         THEN FirstFaults(EndLevel(st), <<key[1] + 1, 1>>, keep)
    ELSE IF key \notin keep THEN FirstFaults(st, <<key[1], key[2] + 1>>, keep)
    ELSE LET f == FaultsAt(st, key) IN
         IF f # {} THEN f
         ELSE IF Vague(st, key) THEN {VagueMark}
         ELSE FirstFaults(Take(st, T.doc, key), <<key[1], key[2] + 1>>, keep)

Faults == IF T.broken THEN {[exc |-> "ParsingError", where |-> "", file |-> T.fname]}
          ELSE FirstFaults(Start, <<1, 1>>,
                           IF T.kind = "gmpe" THEN GmpeKeys(T.doc, KnownTrts)
                           ELSE AllKeys(T.doc))
FileOf(f) == IF f.file = "" THEN T.fname ELSE f.file
JudgeValidate ==
    LET F == Faults IN
    IF F = {VagueMark} THEN "ok"
    ELSE IF F = {} THEN FirstFailing(<<
        <<"a-valid-tree-is-refused-with-" \o T.out \o "-at-" \o T.where, T.out = "ok">> >>)
    ELSE FirstFailing(<<
        <<"an-invalid-tree-is-accepted", T.out # "ok">>,
        <<"wrong-error-" \o T.out, \E f \in F : f.exc = T.out>>,
        <<"wrong-document-named", \E f \in F : f.exc = T.out /\ FileOf(f) = T.file>>,
        <<"wrong-base-path", T.base = "base">>,
        <<"line-of-" \o T.where \o "-is-not-the-first-at-fault",
          \E f \in F : f.exc = T.out /\ FileOf(f) = T.file /\ f.where = T.where>>,
        <<"message-does-not-name-it", T.shows>> >>)

\* ---------------------------------------------------------- sampling (L03)
JudgeSample ==
    LET bs == [j \in DOMAIN T.weights |-> [w |-> T.weights[j]]] IN
    Then(FirstFailing(<<
        <<"sampling-fails-with-" \o T.out, T.out = "ok">>,
        <<"number-of-samples", Len(T.picked) = T.n>> >>), <<
        <<"one-number-per-sample", T.used = T.n>>,
        <<"never-a-branch-of-weight-zero", \A n \in DOMAIN T.picked : bs[T.picked[n]].w > 0>>,
        <<"interval-holding-the-number", \A n \in DOMAIN T.picked :
              Holds(bs, T.picked[n], T.rolls[n], T.units)>> >>)

\* Follow one sampled path; the index of the first number not used, 0 if the
\* path is not the one the numbers lead to
RECURSIVE Follow(_, _, _, _, _)
Follow(st, key, ids, n, r) ==
    IF key = NoSet THEN (IF n > Len(ids) THEN r ELSE 0)
    ELSE IF n > Len(ids) THEN 0
    ELSE LET bs == Set(T.doc, key).branches
             js == {j \in DOMAIN bs : bs[j].id = ids[n] /\ Holds(bs, j, T.rolls[r], T.units)}
         IN IF js = {} THEN 0
            ELSE Follow(st, st.child[ids[n]], ids, n + 1, r + 1)
RECURSIVE FollowAll(_, _, _)
FollowAll(st, s, r) ==
    IF s > Len(T.picked) THEN r
    ELSE LET r2 == Follow(st, st.root, T.picked[s].path, 1, r) IN
         IF r2 = 0 THEN 0 ELSE FollowAll(st, s + 1, r2)

WalkKeys == IF T.gmpe THEN GmpeKeys(T.doc, KnownTrts) ELSE AllKeys(T.doc)
JudgeWalk ==
    LET st == Read(T.doc, WalkKeys)
        P == Paths(st, T.doc)
        last == FollowAll(st, 1, 1)
    IN Then(FirstFailing(<<
        <<"sampling-fails-with-" \o T.out, T.out = "ok">>,
        <<"number-of-samples", Len(T.picked) = T.n>>,
        <<"not-a-path-of-the-tree", \A s \in DOMAIN T.picked : \E n \in DOMAIN P :
                                       Ids(P[n]) = T.picked[s].path>> >>), <<
        <<"interval-holding-the-number", last # 0>>,
        <<"one-number-per-branch-set", T.used >= 0 => T.used = last - 1>>,
        <<"value-is-that-of-the-root-branch", \A s \in DOMAIN T.picked : \E n \in DOMAIN P :
              Ids(P[n]) = T.picked[s].path /\ P[n][1].val = T.picked[s].value>>,
        <<"same-seed-same-samples", T.again = T.picked>> >>)

\* ----------------------------------------------------- uncertainties (L04)
\* a recurrence is [min, max, a, b, width]: magnitudes in quarters, a in
\* 32ths, b in eighths.  Changing b keeps the total moment: a moves with it.
Modify(type, v, m) ==
    CASE type = "abGRAbsolute" -> [m EXCEPT ![3] = v[1], ![4] = v[2]]
      [] type = "bGRRelative" -> [m EXCEPT ![3] = @ + v[1] * m[2], ![4] = @ + v[1]]
      [] type = "maxMagGRRelative" -> [m EXCEPT ![2] = @ + v[1]]
      [] type = "maxMagGRAbsolute" -> [m EXCEPT ![2] = v[1]]

Passes(b, s) == /\ b.trt # "" => s.trt = b.trt
                /\ b.styp # "" => s.type = b.styp
                /\ b.srcs # <<>> => s.id \in Range(b.srcs)

RECURSIVE ApplyAlong(_, _, _, _, _)
ApplyAlong(st, key, n, s, m) ==
    IF key = NoSet \/ n > Len(T.path) THEN m
    ELSE LET b == Set(T.doc, key)
             v == T.nums[T.path[n]]
             m2 == IF b.type # "sourceModel" /\ s.gr /\ Passes(b, s)
                   THEN Modify(b.type, v, m) ELSE m
         IN ApplyAlong(st, st.child[T.path[n]], n + 1, s, m2)
RECURSIVE Times(_, _, _, _)
Times(c, st, s, m) == IF c = 0 THEN m
                      ELSE Times(c - 1, st, s, ApplyAlong(st, st.root, 1, s, m))
JudgeUncert ==
    LET st == Read(T.doc, AllKeys(T.doc)) IN
    Then(FirstFailing(<<
        <<"applying-uncertainties-fails-with-" \o T.out, T.out = "ok">>,
        <<"as-many-sources", Len(T.after) = Len(T.srcs)>> >>), <<
        <<"other-attributes-changed", \A n \in DOMAIN T.changed : ~T.changed[n]>>,
        <<"a-source-that-is-not-selected-changes", \A n \in DOMAIN T.srcs :
            Times(T.srcs[n].times, st, T.srcs[n], T.before[n]) = T.before[n]
               => T.after[n] = T.before[n]>>,
        <<"exactly-the-parameters-of-the-uncertainties", \A n \in DOMAIN T.srcs :
            T.after[n] = Times(T.srcs[n].times, st, T.srcs[n], T.before[n])>> >>)

\* ------------------------------------------ ground motion logic tree (L05)
SetHolding(doc, id) == CHOOSE key \in AllKeys(doc) : id \in BranchIds(Set(doc, key))
Mapping(path) == {<<Set(T.doc, SetHolding(T.doc, path[n].id)).trt, path[n].val>>
                  : n \in DOMAIN path}
JudgeGmpe ==
    LET st == Read(T.doc, GmpeKeys(T.doc, KnownTrts))
        P == Paths(st, T.doc)
        R == [n \in DOMAIN P |-> RlzOf(P[n])]
        sel == {Set(T.doc, key).trt : key \in GmpeKeys(T.doc, KnownTrts)}
    IN Then(FirstFailing(<<
        <<"reading-fails-with-" \o T.out, T.out = "ok">>,
        <<"number-of-paths", Len(T.rlzs) = Len(R)>>,
        <<"number-of-mappings", Len(T.maps) = Len(R)>> >>), <<
        <<"paths-in-file-order", \A n \in DOMAIN R : T.rlzs[n].path = R[n].path>>,
        <<"weight-is-the-product", \A n \in DOMAIN R : T.rlzs[n].num = R[n].num>>,
        <<"value-is-that-of-the-root-branch", \A n \in DOMAIN R : T.rlzs[n].value = R[n].value>>,
        <<"one-entry-per-region", \A n \in DOMAIN R :
              {e[1] : e \in Range(T.maps[n])} = sel /\ Len(T.maps[n]) = Cardinality(sel)>>,
        <<"model-named-by-the-branch-taken", \A n \in DOMAIN R :
              Range(T.maps[n]) = Mapping(P[n])>> >>)

\* ------------------------------------- ground motion realizations (L06)
Regions == Range(T.keys)
Selected == {key \in AllKeys(T.doc) : Set(T.doc, key).trt \in Regions \ {""}}
Declared == [key \in AllKeys(T.doc) |-> Set(T.doc, key).trt]
GsimFaults ==
    If(Cardinality(Regions) # Len(T.keys), {"ValueError"})
    \cup If(\E l \in DOMAIN T.doc : Len(T.doc[l]) > 1, {"InvalidLogicTree"})
    \cup If(\E key \in AllKeys(T.doc) : Set(T.doc, key).type # "gmpeModel", {"InvalidLogicTree"})
    \cup If(\E x, y \in AllKeys(T.doc) : x # y /\ Declared[x] # "" /\ Declared[x] = Declared[y],
            {"InvalidLogicTree"})
    \cup If(T.keys # <<>> /\ Selected = {}, {"InvalidLogicTree"})
    \cup If(\E key \in Selected : ~SumsToOne(Set(T.doc, key).branches, T.units), {"AssertionError"})

RECURSIVE CountOver(_)
CountOver(S) == IF S = {} THEN 1
                ELSE LET x == CHOOSE x \in S : TRUE IN
                     Len(Set(T.doc, x).branches) * CountOver(S \ {x})
\* the branch of `key` that a path goes through
Through1(key, path) == {j \in DOMAIN Set(T.doc, key).branches :
                          Set(T.doc, key).branches[j].id \in Range(path)}
OneEach(path) == /\ Len(path) = Cardinality(Selected)
                 /\ \A key \in Selected : Cardinality(Through1(key, path)) = 1
Pick(key, path) == Set(T.doc, key).branches[CHOOSE j \in Through1(key, path) : TRUE]
RECURSIVE ProductOver(_, _)
ProductOver(S, path) == IF S = {} THEN 1
                        ELSE LET x == CHOOSE x \in S : TRUE IN
                             Pick(x, path).w * ProductOver(S \ {x}, path)
ModelMap(path) == {<<Set(T.doc, key).trt, Pick(key, path).val>> : key \in Selected}
BsId(key) == Set(T.doc, key).bsid
Vals(b) == [j \in DOMAIN b.branches |-> b.branches[j].val]

JudgeGsim ==
    IF GsimFaults # {} THEN FirstFailing(<<
        <<"an-invalid-tree-is-accepted", T.out # "ok">>,
        <<"wrong-error-" \o T.out, T.out \in GsimFaults>> >>)
    ELSE Then(FirstFailing(<<
        <<"a-valid-tree-is-refused-with-" \o T.out, T.out = "ok">>,
        <<"number-of-realizations", Len(T.rlzs) = CountOver(Selected)>>,
        <<"one-branch-per-region", \A n \in DOMAIN T.rlzs : OneEach(T.rlzs[n].path)>> >>), <<
        <<"all-distinct", \A n, m \in DOMAIN T.rlzs : n # m => T.rlzs[n].path # T.rlzs[m].path>>,
        <<"identifiers-always-in-the-same-place", \A n \in DOMAIN T.rlzs :
            \A p \in DOMAIN T.rlzs[n].path :
               SetHolding(T.doc, T.rlzs[n].path[p]) = SetHolding(T.doc, T.rlzs[1].path[p])>>,
        <<"model-of-the-branch", \A n \in DOMAIN T.rlzs :
            Range(T.rlzs[n].value) = ModelMap(T.rlzs[n].path)
            /\ Len(T.rlzs[n].value) = Cardinality(Selected)>>,
        <<"weight-is-the-product", \A n \in DOMAIN T.rlzs :
            T.rlzs[n].num = ProductOver(Selected, T.rlzs[n].path)
                            * Pow(T.units, Len(T.doc) - Cardinality(Selected))>>,
        <<"declared-number-of-paths", T.paths = CountOver(Selected)>>,
        <<"declared-branches", Range(T.branches) =
            {<<BsId(key), Len(Set(T.doc, key).branches)>> : key \in Selected}>>,
        <<"declared-models", Range(T.values) =
            {<<Set(T.doc, key).trt, Vals(Set(T.doc, key))>> : key \in Selected}>>,
        <<"iterating-again-gives-the-same", T.again = T.rlzs>> >>)

Judge == CASE T.call = "paths" -> JudgePaths
           [] T.call = "validate" -> JudgeValidate
           [] T.call = "sample" -> JudgeSample
           [] T.call = "walk" -> JudgeWalk
           [] T.call = "uncert" -> JudgeUncert
           [] T.call = "gmpe" -> JudgeGmpe
           [] T.call = "gsim" -> JudgeGsim

Finish == /\ verdict # "said"
          /\ Say(k, 1, Judge)
          /\ verdict' = "said"
          /\ UNCHANGED k
TraceNext == Finish
=============================================================================
