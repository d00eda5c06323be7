------------------------------- MODULE TextsMC -------------------------------
(* All the texts over small alphabets: the automaton against the grammar     *)
(* written as a set of splittings, and texts for the replay.                 *)
EXTENDS Texts, Json

CONSTANTS Alphabet, MaxLen
VARIABLES text, scan

\* the texts grow one character at a time
MCInit == text = "" /\ scan = Scan0
MCNext == /\ Len(text) < MaxLen
          /\ \E c \in SetOf(Alphabet) : text' = text \o c /\ scan' = Eat(scan, c)

\* declarative grammar of numbers
Sub(i, j) == SubSeq(text, i, j)
AllDigits(s) == SetOf(s) \subseteq Digits
IsMantissa(s) ==
    \/ s # "" /\ AllDigits(s)
    \/ \E n \in 1..Len(s) : /\ Ch(s, n) = "."
                            /\ Len(s) > 1
                            /\ AllDigits(SubSeq(s, 1, n - 1))
                            /\ AllDigits(SubSeq(s, n + 1, Len(s)))
IsExponent(s) == Unsigned(s) # "" /\ AllDigits(Unsigned(s))
IsDecimal(s) ==
    LET u == Unsigned(s) IN
    \/ IsMantissa(u)
    \/ \E n \in 1..Len(u) : /\ Ch(u, n) \in {"e", "E"}
                            /\ IsMantissa(SubSeq(u, 1, n - 1))
                            /\ IsExponent(SubSeq(u, n + 1, Len(u)))

AutomatonIsGrammar == (scan.q \in Final) <=> IsDecimal(text)
ScanIsIncremental == scan = ScanText(text)
IntegersAreNumbers == Integer(text).kind = "num" => Integer(text) = Number(text)
OrderSane == LET x == Number(text) IN
             x.kind \in {"num", "inf"} =>
               /\ NumLE(x, x)
               /\ NumLE(x, Number("0")) \/ NumLE(Number("0"), x)
               /\ (x.neg => NumLE(x, Number("0")))
RulesNested == /\ Accepts([r |-> "probability"], text) => Accepts([r |-> "positivefloat"], text)
               /\ Accepts([r |-> "latitude"], text) => Accepts([r |-> "longitude"], text)
               /\ Accepts([r |-> "positiveint"], text) => Accepts([r |-> "positivefloat"], text)

Emit == PrintT("SCN " \o ToJson([text |-> text]))
=============================================================================
