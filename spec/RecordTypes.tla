----------------------------- MODULE RecordTypes ------------------------------
(* The record types a user defines (openquake.commonlib.record): a type is   *)
(* derived from earlier ones, adds fields, unique constraints and checks.    *)
(*                                                                           *)
(* A field is [name, rule, ord]; ord is the moment of its definition, and    *)
(* the fields of a type are in the order of their definition, whichever type *)
(* they come from.  A unique constraint is [name, of], the names of the      *)
(* columns; a check is a pair of columns not to be equal.                    *)
EXTENDS Texts

VARIABLES types,  \* the types defined so far, a sequence
          recs,   \* the records made so far, of any type
          clock,  \* number of fields defined so far
          out

tyvars == <<types, recs, clock, out>>

\* documented names a type may not give to its attributes
Reserved == {"fields", "fieldnames", "_name2index", "_ntuple"}

Range(s) == {s[n] : n \in 1..Len(s)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* fields sorted by moment of definition
RECURSIVE Sorted(_)
Sorted(fs) == IF fs = {} THEN <<>>
              ELSE LET f == CHOOSE x \in fs : \A y \in fs : x.ord <= y.ord
                   IN <<f>> \o Sorted(fs \ {f})

Names(ty) == [n \in 1..Len(ty.fields) |-> ty.fields[n].name]
Col(ty, name) == CHOOSE n \in 1..Len(ty.fields) : ty.fields[n].name = name
HasCol(ty, name) == \E n \in 1..Len(ty.fields) : ty.fields[n].name = name

\* constraints: the own ones, then those of the bases not redefined, the
\* first base having the precedence
RECURSIVE Merge(_, _)
Merge(us, more) ==
    IF more = <<>> THEN us
    ELSE Merge(us \cup {u \in Head(more) : \A v \in us : v.name # u.name}, Tail(more))

\* body: [bases, own (sequence of [name, rule]), uniq (set), extra (other names)]
Fresh(own) == [n \in 1..Len(own) |-> [name |-> own[n].name, rule |-> own[n].rule, ord |-> clock + n]]
TypeOf(body) ==
    LET bs == [n \in 1..Len(body.bases) |-> types[body.bases[n]]] IN
    [fields |-> Sorted(UNION {Range(bs[n].fields) : n \in 1..Len(bs)} \cup Range(Fresh(body.own))),
     uniq |-> Merge(body.uniq, [n \in 1..Len(bs) |-> bs[n].uniq]),
     checks |-> {}]

HasKey(ty) == \E u \in ty.uniq : u.name = "pkey"

Define(body) ==
    LET ty == TypeOf(body) IN
    /\ clock' = clock + Len(body.own)
    /\ recs' = recs
    /\ IF \/ body.extra \cap Reserved # {}
          \/ \E n \in 1..Len(body.own) : body.own[n].name \in Reserved
       THEN out' = "NameError" /\ types' = types
       ELSE IF ~HasKey(ty) THEN out' = "AttributeError" /\ types' = types
       ELSE out' = "ok" /\ types' = Append(types, ty)

\* a check added to a type concerns no other type
AddCheck(t, c) == /\ types' = [types EXCEPT ![t].checks = @ \cup {c}]
                  /\ out' = "ok"
                  /\ UNCHANGED <<recs, clock>>

\* texts given by position, others by name; a column not given is empty
RowOf(ty, args, named) ==
    [n \in 1..Len(ty.fields) |->
        IF n <= Len(args) THEN args[n]
        ELSE IF \E m \in 1..Len(named) : named[m].name = ty.fields[n].name
             THEN named[CHOOSE m \in 1..Len(named) : named[m].name = ty.fields[n].name].text
             ELSE ""]
Fits(ty, args, named) ==
    /\ Len(args) <= Len(ty.fields)
    /\ \A m \in 1..Len(named) : HasCol(ty, named[m].name) /\ Col(ty, named[m].name) > Len(args)

Make(t, args, named) ==
    IF Fits(types[t], args, named)
    THEN /\ recs' = Append(recs, [t |-> t, row |-> RowOf(types[t], args, named)])
         /\ out' = "ok" /\ UNCHANGED <<types, clock>>
    ELSE out' = "TypeError" /\ UNCHANGED <<types, recs, clock>>
-----------------------------------------------------------------------------
(* what can be asked *)
KeyOf(r, u) == [n \in 1..Len(u.of) |-> r.row[Col(types[r.t], u.of[n])]]
Bad(r) == LET f == types[r.t].fields IN
          SelectSeq([n \in 1..Len(f) |-> n], LAMBDA n : ~Accepts(f[n].rule, r.row[n]))
ChecksHold(r) == \A c \in types[r.t].checks :
    r.row[Col(types[r.t], c[1])] # r.row[Col(types[r.t], c[2])]
IsValid(r) == Bad(r) = <<>> /\ ChecksHold(r)

\* the records of a type put in a new table, in order, up to the first clash
OfType(t) == SelectSeq(recs, LAMBDA r : r.t = t)
Clashes(rs, n) == \E m \in 1..(n - 1) : \E u \in types[rs[n].t].uniq : KeyOf(rs[m], u) = KeyOf(rs[n], u)
FirstClash(rs) == IF \E n \in 1..Len(rs) : Clashes(rs, n)
                  THEN CHOOSE n \in 1..Len(rs) : Clashes(rs, n) /\ \A m \in 1..(n - 1) : ~Clashes(rs, m)
                  ELSE 0
-----------------------------------------------------------------------------
\* every type has a primary key over its own columns, no column twice, and
\* the fields of the types it derives from among its own
WellFormed == \A t \in 1..Len(types) :
    /\ HasKey(types[t])
    /\ \A u \in types[t].uniq : \A n \in 1..Len(u.of) : HasCol(types[t], u.of[n])
    /\ \A m, n \in 1..Len(types[t].fields) :
          m < n => /\ types[t].fields[m].name # types[t].fields[n].name
                   /\ types[t].fields[m].ord < types[t].fields[n].ord
\* what was defined never changes, but for the checks added
Stable == [][\A t \in 1..Len(types) :
               /\ types'[t].fields = types[t].fields
               /\ types'[t].uniq = types[t].uniq
               /\ types[t].checks \subseteq types'[t].checks]_tyvars
RowsFit == \A n \in 1..Len(recs) : Len(recs[n].row) = Len(types[recs[n].t].fields)
=============================================================================
