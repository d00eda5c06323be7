----------------------------- MODULE DeepEqTrace -----------------------------
EXTENDS DeepEq, TraceBase

VARIABLES k, verdict

T == Traces[k]
TraceInit == k \in 1..Len(Traces) /\ verdict = "ok"

\* one answer: [out, eq, msg (length of the message)]
Answer(x, c, way) == <<
    <<way \o "-fails-with-" \o x.out, x.out = "ok">>,
    <<way \o "-must-be-equal", c = "eq" => x.eq>>,
    <<way \o "-must-be-different", c = "ne" => ~x.eq>>,
    <<way \o "-message-iff-different", (x.msg = 0) = x.eq>> >>

Judge == LET ex == {T.ex[n] : n \in 1..Len(T.ex)}
             c == Cmp(T.a, T.b, ex) IN
         FirstFailing(Answer(T.ab, c, "comparison") \o Answer(T.ba, c, "reversed-comparison")
                      \o Answer(T.aa, "eq", "comparison-with-itself"))

Finish == /\ verdict # "said"
          /\ Say(k, 1, Judge)
          /\ verdict' = "said"
          /\ UNCHANGED k
TraceNext == Finish
=============================================================================
