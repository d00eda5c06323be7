---------------------------- MODULE ArchivesTrace ----------------------------
(* Histories of operations on a real archive, of the kind T.kind, holding at  *)
(* the beginning the files T.init.                                            *)
EXTENDS Archives, TraceBase
VARIABLES k, i, st, verdict
T == Traces[k]
Ev == T.events[i]
RangeOf(q) == {q[n] : n \in 1..Len(q)}
AsFiles(pairs) == [x \in {pairs[n][1] : n \in 1..Len(pairs)} |->
                     pairs[CHOOSE n \in 1..Len(pairs) : pairs[n][1] = x][2]]
InitFiles(t) == AsFiles(t.init)
Kept == DOMAIN st.files \ Writing(st)
Judge ==
    CASE ~Enabled(st, Ev) -> "harness-asked-a-meaningless-operation"
      [] Ev.op = "contains" ->
            FirstFailing(<< <<"contains-a-missing-name", Ev.name \in Writing(st) \/
                                (Ev.res = "yes" => Ev.name \in Kept)>>,
                            <<"does-not-contain-a-written-name", Ev.name \in Kept => Ev.res = "yes">>,
                            <<"outcome-is-" \o Ev.res, Ev.res \in {"yes", "no"}>> >>)
      [] Ev.op = "list" ->
            FirstFailing(<< <<"outcome-is-" \o Ev.res, Ev.res = "ok">>,
                            <<"listed-without-the-prefix", \A x \in RangeOf(Ev.names) : IsPrefix(Ev.text, x)>>,
                            <<"listed-but-missing", RangeOf(Ev.names) \subseteq DOMAIN st.files \cup Writing(st)>>,
                            <<"not-listed", \A x \in Kept : IsPrefix(Ev.text, x) => x \in RangeOf(Ev.names)>>,
                            <<"listed-twice", Len(Ev.names) = Cardinality(RangeOf(Ev.names))>> >>)
      [] Ev.op = "disk" ->
            FirstFailing(<< <<"files-after-close-" \o Ev.res, Ev.res = "ok">>,
                            <<"files-left-after-close", AsFiles(Ev.files) = st.files>>,
                            <<"files-repeated", Len(Ev.files) = Cardinality(DOMAIN st.files)>> >>)
      [] Ev.op \in {"read", "readline"} ->
            FirstFailing(<< <<"text-read-is-" \o Ev.res, Ev.res = Expected(st, Ev)>> >>)
      [] OTHER -> FirstFailing(<< <<"outcome-is-" \o Ev.res \o "-expected-" \o Expected(st, Ev),
                                    Ev.res = Expected(st, Ev)>> >>)
TraceInit == /\ k \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok" /\ st = Start(InitFiles(Traces[k]))
Step == /\ verdict = "ok" /\ i <= Len(T.events)
        /\ LET v == Judge IN
           IF v = "ok" THEN i' = i + 1 /\ st' = Apply(st, Ev) /\ UNCHANGED <<k, verdict>>
           ELSE Say(k, i, Ev.op \o ":" \o v) /\ verdict' = v /\ UNCHANGED <<k, i, st>>
Accept == /\ verdict = "ok" /\ i = Len(T.events) + 1
          /\ Say(k, i, "ok") /\ verdict' = "said" /\ UNCHANGED <<k, i, st>>
TraceNext == Step \/ Accept
=============================================================================
