----------------------------- MODULE PicklesTrace -----------------------------
EXTENDS Pickles, TraceBase
VARIABLES k, verdict
T == Traces[k]
TraceInit == k \in 1..Len(Traces) /\ Begin(T.items) /\ verdict = "ok"

\* one wrapper of the code against one of the specification
Wrapper(o, w, x) == <<
    <<"is-a-wrapper", o.iswrapper>>,
    <<"pickled-once", o.w = w.w>>,
    <<"already-pickled-kept", w.given => o.given>>,
    <<"class-reported", o.cls = w.cls>>,
    <<"size-reported", o.size = x.size>>,
    <<"description", o.repcls = w.cls /\ o.repk = x.size \div 1024>>,
    <<"unpickled-value", o.val = w.val>> >>
Call(c) == <<
    <<"call-with-pickled-arguments-fails-with-" \o c.out, c.out = "ok">>,
    <<"result-is-pickled", c.iswrapper>>,
    <<"outcome-of-the-call", c.res = c.plain>>,
    <<"kind-of-outcome", c.etype = c.plainetype>>,
    <<"arguments-in-order", c.etype = "" => c.got = [n \in 1..Len(T.items) |-> T.items[n].val]>>,
    <<"failure-described", c.etype # "" => c.etype = c.raised /\ c.described>> >>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Judge == FirstFailing(
    <<<<"pickling-fails-with-" \o T.out, T.out = "ok">>,
      <<"one-wrapper-per-element", Len(T.wrappers) = Len(out)>>>> \o
    (IF Len(T.wrappers) # Len(out) THEN <<>> ELSE
     Flat([n \in 1..Len(out) |-> Wrapper(T.wrappers[n], out[n], T.items[n])])) \o
    (IF T.call.made THEN Call(T.call) ELSE <<>>))

Step == verdict = "ok" /\ Pickle /\ UNCHANGED <<k, verdict>>
Finish == /\ verdict = "ok" /\ todo = <<>>
          /\ Say(k, 1, Judge)
          /\ verdict' = "said"
          /\ UNCHANGED <<pvars, k>>
TraceNext == Step \/ Finish
=============================================================================
