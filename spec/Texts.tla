-------------------------------- MODULE Texts --------------------------------
(* The languages of the field validators (openquake.commonlib.valid) and of  *)
(* the built-in conversions used in records, judged on the whole text.       *)
(*                                                                           *)
(* Numbers are read by an automaton, one character at a time, which collects *)
(* sign, digits, decimal point and exponent; they are compared exactly, as   *)
(* decimal numbers, with the bounds of the range, themselves given as text.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, n) == SubSeq(s, n, n)
Chars(s) == [n \in 1..Len(s) |-> Ch(s, n)]
SetOf(s) == {Ch(s, n) : n \in 1..Len(s)}

Digits == SetOf("0123456789")
Letters == SetOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
White == {" ", "\t", "\n", "\r", "\f"}
DigitVal == [d \in Digits |-> CHOOSE v \in 0..9 : ToString(v) = d]

Lo == "abcdefghijklmnopqrstuvwxyz"
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCh(c) == IF c \in SetOf(Up)
              THEN Ch(Lo, CHOOSE n \in 1..26 : Ch(Up, n) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Ch(s, 1) \in White THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ Ch(s, Len(s)) \in White
             THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))

\* the words of a text, separated by white space
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, n, w) ==
    IF n > Len(s) THEN (IF w = "" THEN <<>> ELSE <<w>>)
    ELSE IF Ch(s, n) \in White
         THEN (IF w = "" THEN <<>> ELSE <<w>>) \o WordsFrom(s, n + 1, "")
         ELSE WordsFrom(s, n + 1, w \o Ch(s, n))
Words(s) == WordsFrom(s, 1, "")

-----------------------------------------------------------------------------
(* The number automaton *)

Scan0 == [q |-> "start", neg |-> FALSE, digs |-> <<>>, frac |-> 0,
          eneg |-> FALSE, edigs |-> <<>>]

Delta(q, c) ==
    CASE q = "start" /\ c \in {"+", "-"} -> "signed"
      [] q \in {"start", "signed", "int"} /\ c \in Digits -> "int"
      [] q \in {"start", "signed"} /\ c = "." -> "dot"
      [] q = "int" /\ c = "." -> "frac"
      [] q \in {"dot", "frac"} /\ c \in Digits -> "frac"
      [] q \in {"int", "frac"} /\ c \in {"e", "E"} -> "e"
      [] q = "e" /\ c \in {"+", "-"} -> "esigned"
      [] q \in {"e", "esigned", "exp"} /\ c \in Digits -> "exp"
      [] OTHER -> "bad"

Eat(a, c) ==
    LET q == Delta(a.q, c) IN
    [q |-> q,
     neg |-> a.neg \/ (q = "signed" /\ c = "-"),
     digs |-> IF q \in {"int", "frac"} /\ c \in Digits THEN Append(a.digs, DigitVal[c]) ELSE a.digs,
     frac |-> IF q = "frac" /\ c \in Digits THEN a.frac + 1 ELSE a.frac,
     eneg |-> a.eneg \/ (q = "esigned" /\ c = "-"),
     edigs |-> IF q = "exp" THEN Append(a.edigs, DigitVal[c]) ELSE a.edigs]

RECURSIVE EatAll(_, _, _)
EatAll(a, s, n) == IF n > Len(s) THEN a ELSE EatAll(Eat(a, Ch(s, n)), s, n + 1)

Final == {"int", "frac", "exp"}
ScanText(s) == EatAll(Scan0, s, 1)

RECURSIVE IntOf(_)
IntOf(ds) == IF ds = <<>> THEN 0
             ELSE 10 * IntOf(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]

RECURSIVE NoLead(_)
NoLead(ds) == IF ds # <<>> /\ ds[1] = 0 THEN NoLead(Tail(ds)) ELSE ds
RECURSIVE NoTrail(_)
NoTrail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0
               THEN NoTrail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

\* normal form 0.d1d2d3... * 10^mag of the number collected
Normal(a) ==
    LET ds == NoLead(a.digs)
        e == IntOf(NoLead(a.edigs))
        sd == NoTrail(ds) IN
    IF ds = <<>> THEN [kind |-> "num", neg |-> FALSE, d |-> <<>>, mag |-> 0]
    ELSE [kind |-> "num", neg |-> a.neg, d |-> sd,
          mag |-> Len(ds) - a.frac + (IF a.eneg THEN -e ELSE e)]

Inf(neg) == [kind |-> "inf", neg |-> neg, d |-> <<>>, mag |-> 0]
NaN == [kind |-> "nan", neg |-> FALSE, d |-> <<>>, mag |-> 0]
NotNumber == [kind |-> "none", neg |-> FALSE, d |-> <<>>, mag |-> 0]

InfWords == {"inf", "infinity"}
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s

\* the floating point number written in a text
Number(text) ==
    LET s == Strip(text)  a == ScanText(s)  w == Lower(Unsigned(s)) IN
    IF a.q \in Final THEN Normal(a)
    ELSE IF w \in InfWords THEN Inf(Ch(s, 1) = "-")
    ELSE IF w = "nan" THEN NaN
    ELSE NotNumber

\* the integer written in a text
Integer(text) ==
    LET s == Strip(text)  a == ScanText(s) IN
    IF a.q = "int" THEN Normal(a) ELSE NotNumber

\* comparison of magnitudes and of numbers
RECURSIVE LexLE(_, _)
LexLE(x, y) == IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE
               ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE LexLE(Tail(x), Tail(y))
IsZero(x) == x.kind = "num" /\ x.d = <<>>
AbsLE(x, y) == IF y.kind = "inf" THEN TRUE ELSE IF x.kind = "inf" THEN FALSE
               ELSE IF IsZero(x) THEN TRUE ELSE IF IsZero(y) THEN FALSE
               ELSE IF x.mag # y.mag THEN x.mag < y.mag ELSE LexLE(x.d, y.d)
NumLE(x, y) ==
    IF x.kind = "nan" \/ y.kind = "nan" THEN FALSE
    ELSE IF x.neg /\ ~y.neg THEN TRUE
    ELSE IF ~x.neg /\ y.neg THEN FALSE
    ELSE IF x.neg THEN AbsLE(y, x) ELSE AbsLE(x, y)

InRange(x, lo, hi) == /\ x.kind \in {"num", "inf"}
                      /\ NumLE(Number(lo), x)
                      /\ NumLE(x, Number(hi))

-----------------------------------------------------------------------------
(* Rules.  A rule is a record with field r and its parameters. *)

IsName(s) == /\ s # ""
             /\ Ch(s, 1) \in Letters \cup {"_"}
             /\ \A n \in 2..Len(s) : Ch(s, n) \in Letters \cup Digits \cup {"_"}

Plain == {"PGA", "PGV", "PGD", "IA", "RSD", "MMI"}
\* the spectral period, digits with an optional point after the first
PeriodOf(s) == IF Len(s) > 4 /\ SubSeq(s, 1, 3) = "SA(" /\ Ch(s, Len(s)) = ")"
               THEN SubSeq(s, 4, Len(s) - 1) ELSE ""
IsPeriod(p) == /\ p # ""
               /\ SetOf(p) \subseteq Digits \cup {"."}
               /\ Ch(p, 1) \in Digits
               /\ Cardinality({n \in 1..Len(p) : Ch(p, n) = "."}) <= 1
IsIMT(s) == s \in Plain \/ IsPeriod(PeriodOf(s))

BoolTrue == {"1", "true"}
BoolFalse == {"0", "false"}

Has(seq, x) == \E n \in 1..Len(seq) : seq[n] = x

RECURSIVE Accepts(_, _)
Accepts(rule, s) ==
    CASE rule.r = "str" -> TRUE
      [] rule.r = "int" -> Integer(s).kind # "none"
      [] rule.r = "float" -> Number(s).kind # "none"
      [] rule.r = "positiveint" -> Integer(s).kind # "none" /\ ~Integer(s).neg
      [] rule.r = "positivefloat" -> InRange(Number(s), "0", "inf")
      [] rule.r = "longitude" -> InRange(Number(s), "-180", "180")
      [] rule.r = "latitude" -> InRange(Number(s), "-90", "90")
      [] rule.r = "probability" -> InRange(Number(s), "0", "1")
      [] rule.r = "range" -> InRange(Number(s), rule.lo, rule.hi)
      [] rule.r = "name" -> IsName(s)
      [] rule.r = "namelist" -> Words(s) # <<>> /\ \A n \in 1..Len(Words(s)) : IsName(Words(s)[n])
      [] rule.r = "not_empty" -> s # ""
      [] rule.r = "choice" -> Has(rule.of, s)
      [] rule.r = "boolean" -> s \in BoolTrue \cup BoolFalse
      [] rule.r = "IMTstr" -> IsIMT(s)
      [] rule.r = "noneor" -> s = "" \/ Accepts(rule.sub, s)

\* does the logged value denote what the text says
SameNumber(shown, x) == Number(shown) = x
\* double precision holds 15 digits: beyond them it is rounded
SameFloat(shown, x) == Len(x.d) <= 15 => SameNumber(shown, x)

RECURSIVE Denotes(_, _, _)
Denotes(rule, s, v) ==
    CASE rule.r \in {"str", "name", "not_empty", "choice"} -> v = [t |-> "str", v |-> s]
      [] rule.r \in {"int", "positiveint"} -> v.t = "int" /\ SameNumber(v.v, Integer(s))
      [] rule.r \in {"float", "positivefloat", "longitude", "latitude", "probability", "range"}
           -> v.t = "float" /\ SameFloat(v.v, Number(s))
      [] rule.r = "namelist" -> v.t = "list" /\ v.v = Words(s)
      [] rule.r = "boolean" -> v = [t |-> "bool", v |-> IF s \in BoolTrue THEN "True" ELSE "False"]
      [] rule.r = "IMTstr" ->
           IF s \in Plain THEN v = [t |-> "imt", v |-> <<s, "None", "None">>]
           ELSE /\ v.t = "imt" /\ v.v[1] = "SA"
                /\ SameNumber(v.v[2], Number(PeriodOf(s)))
                /\ SameNumber(v.v[3], Number("5"))
      [] rule.r = "noneor" -> IF s = "" THEN v = [t |-> "none", v |-> ""]
                              ELSE Denotes(rule.sub, s, v)
=============================================================================
