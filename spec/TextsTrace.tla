------------------------------ MODULE TextsTrace ------------------------------
(* What the real validators answer on a text.  Each logged call has the rule *)
(* it was made for and either a value or the fact that a ValueError (or       *)
(* something else) was raised.                                               *)
EXTENDS Texts, TraceBase

VARIABLES k, i, verdict

T == Traces[k]

TraceInit == k \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"

\* an infinite number is not bounded above by a rule without upper bound, but
\* refusing it there is not excluded either
MayRefuse(rule, s) ==
    LET r == IF rule.r = "noneor" THEN rule.sub ELSE rule IN
    r.r = "positivefloat" /\ Number(s) = Inf(FALSE)

\* interpreters differ on white space between the sign and the digits of an
\* integer: outside the language, but not excluded
SignSpace(s) == LET u == Strip(s) IN
    Len(u) > 1 /\ Ch(u, 1) \in {"+", "-"} /\ Ch(u, 2) \in White
MayAccept(rule, s) == rule.r \in {"int", "positiveint"} /\ SignSpace(s)

Judge(c) == LET a == Accepts(c.rule, T.text) IN FirstFailing(<<
    <<c.rule.r \o "-raised-" \o c.out, c.out \in {"ok", "ValueError"}>>,
    <<c.rule.r \o "-must-accept", c.out = "ValueError" => ~a \/ MayRefuse(c.rule, T.text)>>,
    <<c.rule.r \o "-must-refuse", c.out = "ok" => a \/ MayAccept(c.rule, T.text)>>,
    <<c.rule.r \o "-wrong-value", c.out = "ok" /\ a => Denotes(c.rule, T.text, c.value)>> >>)

Step == /\ verdict = "ok" /\ i <= Len(T.calls)
        /\ verdict' = Judge(T.calls[i])
        /\ i' = i + 1 /\ k' = k

Finish == /\ verdict # "ok" \/ i = Len(T.calls) + 1
          /\ verdict # "said"
          /\ Say(k, i - 1, verdict)
          /\ verdict' = "said"
          /\ UNCHANGED <<k, i>>

TraceNext == Step \/ Finish
=============================================================================
