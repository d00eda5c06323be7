----------------------------- MODULE JobConfigMC -----------------------------
EXTENDS JobConfig, Json
CONSTANTS MaxOptions, MaxParses
VARIABLES files, cwd, conf, results, hist
vars == <<files, cwd, conf, results, hist>>
Rel(parts) == [abs |-> FALSE, parts |-> parts]
Abs(parts) == [abs |-> TRUE, parts |-> parts]
Dirs == {<<"d">>, <<"d", "e">>}
Home == <<"d">>
ConfPlace == <<"d", "job.ini">>
\* the ways of writing the place of the configuration
NamesFrom(dir) == {n \in {Abs(ConfPlace), Rel(<<"job.ini">>), Rel(<<"..", "job.ini">>),
                          Rel(<<".", "job.ini">>), Rel(<<"e", "..", "job.ini">>)} : Place(dir, n) = ConfPlace}
Paths == {Rel(<<"x">>), Rel(<<"e", "x">>), Rel(<<"..", "x">>), Abs(<<"d", "x">>)}
Opt(k, p) == [key |-> k, text |-> "", path |-> p]
Choices ==
    {[key |-> k, text |-> v, path |-> Rel(<<>>)] : k \in {"a"}, v \in {"1", "2"}}
    \cup {Opt("site_model_file", p) : p \in Paths}
    \cup {Opt("sites_csv", p) : p \in {Rel(<<"s">>), Rel(<<"..", "d", "s">>), Rel(<<"no">>)}}
    \cup {Opt(Smlt \o "_file", p) : p \in {Rel(<<"t">>), Abs(<<"d", "t">>), Rel(<<"no">>)}}
Tree == [tree |-> << [type |-> "sourceModel", path |-> Rel(<<"m">>)],
                     [type |-> "gmpeModel", path |-> Rel(<<"Gsim">>)],
                     [type |-> "sourceModel", path |-> Abs(<<"d", "m">>)],
                     [type |-> "sourceModel", path |-> Rel(<<"..", "m">>)] >>, sites |-> <<>>]
Init == /\ files = (<<"d", "s">> :> [sites |-> << <<"1", "2">>, <<"3", "4">> >>, tree |-> <<>>])
                   @@ (<<"d", "t">> :> Tree)
        /\ cwd \in Dirs /\ results = {} /\ hist = <<>>
        /\ conf = <<>>
Say(o) == hist' = Append(hist, o)
\* options are added, in the last section or in a new one
Write(o, new) ==
    /\ results = {} /\ Len(Options(conf)) < MaxOptions
    /\ ~(\E n \in 1..Len(conf) : conf[n].name = "s2") \/ ~new
    /\ conf' = IF new \/ conf = <<>>
               THEN Append(conf, [name |-> IF conf = <<>> THEN "s1" ELSE "s2", options |-> <<o>>])
               ELSE [conf EXCEPT ![Len(conf)].options = Append(@, o)]
    /\ UNCHANGED <<files, cwd, results, hist>>
Chdir(d) == cwd # d /\ cwd' = d /\ Say([op |-> "cd", name |-> Abs(d)]) /\ UNCHANGED <<files, conf, results>>
ResultOf(name) ==
    LET b == Base(cwd, name) IN
    IF Refused(files, b, conf) THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, plain |-> Plain(conf), inputs |-> Inputs(b, conf),
          sites |-> IF HasSites(conf) THEN Sites(files, b, conf) ELSE <<>>,
          sources |-> IF HasTree(conf) THEN Sources(files, b, conf) ELSE {}]
Parse(name) == /\ Len(hist) < MaxParses
               /\ results' = results \cup {ResultOf(name)}
               /\ Say([op |-> "parse", name |-> name]) /\ UNCHANGED <<files, cwd, conf>>
Next == \/ \E o \in Choices, new \in BOOLEAN : Write(o, new)
        \/ conf # <<>> /\ \E d \in Dirs : Len(hist) + 1 < MaxParses /\ Chdir(d)
        \/ conf # <<>> /\ \E n \in NamesFrom(cwd) : Parse(n)
\* the current directory and the way the file is named make no difference
Independent == Cardinality(results) <= 1
\* nothing is lost
Complete == \A r \in results : r.ok =>
    \A n \in 1..Len(Options(conf)) : LET k == Options(conf)[n].key IN
        \/ k \in DOMAIN r.plain
        \/ IsFile(k) /\ InputName(k) \in DOMAIN r.inputs
        \/ k = "sites_csv" /\ r.sites # <<>>
\* the value is one of those given
Given == \A r \in results : r.ok => \A k \in DOMAIN r.plain :
    \E n \in 1..Len(Options(conf)) : Options(conf)[n].key = k /\ Options(conf)[n].text = r.plain[k]
TreeRead == \A r \in results : r.ok /\ HasTree(conf) => r.sources = {<<"d", "m">>, <<"m">>}
\* as many sections as options, or a single one: the same
Flat == Plain(conf) = Plain(<<[name |-> "all", options |-> Options(conf)]>>)
Spec == Init /\ [][Next]_vars
View == <<cwd, conf, results, Len(hist)>>
Emit == (Len(hist) = MaxParses /\ hist[Len(hist)].op = "parse") =>
    PrintT("SCN " \o ToJson([conf |-> conf, ops |-> hist, cwd |-> Abs(IF hist[1].op = "cd" THEN
              (IF hist[1].name.parts = <<"d">> THEN <<"d", "e">> ELSE <<"d">>) ELSE cwd)]))
=============================================================================
