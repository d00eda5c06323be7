---------------------------- MODULE RecordTypesMC -----------------------------
(* Bounded instance and generator of histories of definitions and records.   *)
EXTENDS RecordTypes, Json

CONSTANTS Depth
VARIABLE hist

Pool == <<"z", "a", "m", "id", "b", "Q", "x_1">>
PoolSet == Range(Pool)
Rules == <<[r |-> "str"], [r |-> "int"], [r |-> "probability"], [r |-> "noneor", sub |-> [r |-> "int"]],
           [r |-> "not_empty"]>>
TextPool == <<"", "1", "0", "x", "0.5", "a b", " 1", "x ", " ">>

MCInit == types = <<>> /\ recs = <<>> /\ clock = 0 /\ out = "ok" /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Scn == PrintT("SCN " \o ToJson([ops |-> hist]))

Inherited(bases) == UNION {Range(Names(types[bases[n]])) : n \in 1..Len(bases)}
\* two bases only if they share no field
BasesOK(bases) == Len(bases) = 2 =>
    Range(Names(types[bases[1]])) \cap Range(Names(types[bases[2]])) = {}

Def(body) == Define(body) /\ Op([op |-> "define", body |-> body])
Chk(t, c) == AddCheck(t, c) /\ Op([op |-> "check", t |-> t, of |-> c])
Mk(t, a, n) == Make(t, a, n) /\ Op([op |-> "make", t |-> t, args |-> a, named |-> n])

\* a derived type is not given to types with checks (whether those are
\* inherited is not decided), nor a check to a type with derived ones
Derived(t) == \E h \in 1..Len(hist) : hist[h].op = "define" /\ t \in Range(hist[h].body.bases)
NoChecks(t) == types[t].checks = {}

F1 == [name |-> "z", rule |-> Rules[1]]
F2 == [name |-> "a", rule |-> Rules[2]]
F3 == [name |-> "_ntuple", rule |-> Rules[1]]
Owns == {<<>>, <<F1, F3>>, <<F1>>, <<F1, F2>>, <<F2, F1>>}
Uniqs(names) == {{}} \cup {{[name |-> "pkey", of |-> <<n>>]} : n \in names}
                \cup {{[name |-> "unique", of |-> <<n>>]} : n \in names}
Small == {"", "x"}
MCNext ==
    /\ Len(hist) < Depth
    /\ \/ /\ Len(types) < 3
          /\ \A h \in 1..Len(hist) : hist[h].op = "define" => out = "ok"
          /\ \E bases \in {<<>>} \cup {<<t>> : t \in 1..Len(types)}
                          \cup {<<t, u>> : t, u \in 1..Len(types)}, own \in Owns,
                extra \in {{}, {"fields"}} :
               /\ BasesOK(bases)
               /\ \A n \in 1..Len(bases) : NoChecks(bases[n])
               /\ {own[n].name : n \in 1..Len(own)} \cap Inherited(bases) = {}
               /\ \E uniq \in Uniqs(Inherited(bases) \cup ({own[n].name : n \in 1..Len(own)} \ Reserved)) :
                    Def([bases |-> bases, own |-> own, uniq |-> uniq, extra |-> extra])
       \/ \E t \in 1..Len(types) : /\ Len(types[t].fields) > 1 /\ ~Derived(t)
                                   /\ Chk(t, <<types[t].fields[1].name, types[t].fields[2].name>>)
       \/ /\ Len(recs) < 2
          /\ \E t \in 1..Len(types), a, b \in Small : Mk(t, <<a>>, <<[name |-> "a", text |-> b]>>)
NoHist == <<types, recs, clock, out>>

\* a random arrangement of (part of) a set
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} \/ RandomElement(1..3) = 1 THEN <<>>
              ELSE LET x == RandomElement(S) IN <<x>> \o Shuffle(S \ {x})
RKey(names) == LET s == Shuffle(names) IN IF s = <<>> THEN <<RandomElement(names)>> ELSE s

SimDefine ==
    \E bases \in {LET ts == 1..Len(types)  k == RandomElement(1..6) IN
                  IF ts = {} \/ k <= 2 THEN <<>>
                  ELSE LET pairs == {p \in {<<t, u>> : t, u \in ts} : BasesOK(p)} IN
                       IF k <= 4 \/ pairs = {} THEN <<RandomElement(ts)>>
                       ELSE RandomElement(pairs)} :
    /\ \A n \in 1..Len(bases) : NoChecks(bases[n])
    /\ \E own \in {LET s0 == Shuffle((IF RandomElement(1..8) = 1 THEN {RandomElement(Reserved)} ELSE {})
                                    \cup (PoolSet \ Inherited(bases)))
                       s == IF s0 = <<>> /\ bases = <<>> THEN <<RandomElement(PoolSet)>> ELSE s0 IN
                   [n \in 1..Len(s) |-> [name |-> s[n], rule |-> Rules[RandomElement(1..Len(Rules))]]]} :
       LET all == Inherited(bases) \cup ({own[n].name : n \in 1..Len(own)} \ Reserved) IN
       /\ all # {}
       /\ \E uniq \in {(IF RandomElement(1..8) > 2 \/ (bases = <<>> /\ RandomElement(1..4) > 1)
                        THEN {[name |-> "pkey", of |-> RKey(all)]} ELSE {})
                       \cup (IF RandomElement(1..3) = 1 THEN {[name |-> "unique", of |-> RKey(all)]} ELSE {})
                       \cup (IF RandomElement(1..5) = 1 THEN {[name |-> "other", of |-> RKey(all)]} ELSE {})},
            extra \in {IF RandomElement(1..10) = 1 THEN {RandomElement(Reserved)}
                       ELSE IF RandomElement(1..6) = 1 THEN {"helper"} ELSE {}} :
            Def([bases |-> bases, own |-> own, uniq |-> uniq, extra |-> extra])

\* (with a parameter, or TLC would choose once for all)
RText(m) == TextPool[RandomElement(1..(Len(TextPool) + 0 * m))]
SimMake ==
    \E t \in {RandomElement(1..Len(types))} :
    \E w \in {Len(types[t].fields)}, k \in {RandomElement(1..12)} :
    \E n \in {IF k = 1 THEN w + 1 ELSE IF k <= 6 THEN w ELSE RandomElement(0..w)} :
    \E left \in {{types[t].fields[m].name : m \in (n + 1)..w}} :
    \E by \in {Shuffle(IF RandomElement(1..15) = 1 THEN left \cup {RandomElement(PoolSet)} ELSE left)} :
       Mk(t, [m \in 1..n |-> RText(m)], [m \in 1..Len(by) |-> [name |-> by[m], text |-> RText(m)]])

SimCheck ==
    \E t \in {RandomElement(1..Len(types))} :
      /\ Len(types[t].fields) > 1 /\ ~Derived(t)
      /\ \E c \in {LET x == RandomElement(Range(Names(types[t]))) IN
                   <<x, RandomElement(Range(Names(types[t])) \ {x})>>} : Chk(t, c)

SimNext ==
    \/ /\ Len(hist) < Depth
       /\ \E k \in {RandomElement(1..10)} :
          IF types = <<>> \/ (k <= 4 /\ Len(types) < 5) THEN SimDefine \/ (types # <<>> /\ SimMake)
          ELSE IF k = 5 THEN SimCheck \/ SimMake ELSE SimMake
    \/ /\ Len(hist) = Depth
       /\ Scn
       /\ hist' = Append(hist, [op |-> "end"])
       /\ UNCHANGED tyvars
Emit == Len(hist) = Depth => Scn
=============================================================================
