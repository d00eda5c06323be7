------------------------------ MODULE JobConfig ------------------------------
(* Job configurations.  The state is a small file system and the current     *)
(* directory; parsing a configuration reads them.  A place is the sequence of *)
(* the names from the root; a path, as it is written, is [abs, parts] with    *)
(* parts that may be "." and "..".                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RangeOf(q) == {q[n] : n \in 1..Len(q)}
EndsWith(name, s) == Len(name) >= Len(s) /\ SubSeq(name, Len(name) - Len(s) + 1, Len(name)) = s
Front(q) == SubSeq(q, 1, Len(q) - 1)
RECURSIVE Walk(_, _)
Walk(place, parts) ==
    IF parts = <<>> THEN place
    ELSE Walk(CASE Head(parts) = "." -> place
                [] Head(parts) = ".." -> IF place = <<>> THEN <<>> ELSE Front(place)
                [] OTHER -> Append(place, Head(parts)), Tail(parts))
Place(from, path) == Walk(IF path.abs THEN <<>> ELSE from, path.parts)

\* A configuration is a sequence of sections, each a sequence of options
\* [key, text, path]: what is written, and when it names a file, its path.
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
Options(conf) == Flatten([n \in 1..Len(conf) |-> conf[n].options])
Keys(conf) == {Options(conf)[n].key : n \in 1..Len(Options(conf))}
\* the sections are there just for documentation: the last one counts
Last(conf, key) == LET o == Options(conf) IN
    o[CHOOSE n \in 1..Len(o) : o[n].key = key /\ \A m \in n+1..Len(o) : o[m].key # key]
IsFile(key) == EndsWith(key, "_file") /\ key # "sites_csv"
InputName(key) == SubSeq(key, 1, Len(key) - 5)
IsPlain(key) == ~IsFile(key) /\ key # "sites_csv"
Base(cwd, name) == Front(Place(cwd, name))

Plain(conf) == [k \in {k \in Keys(conf) : IsPlain(k)} |-> Last(conf, k).text]
Inputs(base, conf) ==
    [i \in {InputName(k) : k \in {k \in Keys(conf) : IsFile(k)}} |->
        Place(base, Last(conf, i \o "_file").path)]
Has(files, place) == place \in DOMAIN files
SitesPlace(base, conf) == Place(base, Last(conf, "sites_csv").path)
HasSites(conf) == "sites_csv" \in Keys(conf)
Smlt == "source_model_logic_tree"
HasTree(conf) == (Smlt \o "_file") \in Keys(conf)
TreePlace(base, conf) == Inputs(base, conf)[Smlt]
\* A logic tree is the set of what its branches refer to, [type, path].
Sources(files, base, conf) ==
    LET t == files[TreePlace(base, conf)].tree IN
    {Place(base, t[n].path) : n \in {n \in 1..Len(t) : t[n].type = "sourceModel"}}
Refused(files, base, conf) ==
    \/ HasSites(conf) /\ ~Has(files, SitesPlace(base, conf))
    \/ HasTree(conf) /\ ~Has(files, TreePlace(base, conf))
\* a sites_csv replaced by a later one may be looked for too
MayRefuse(files, base, conf) == \E n \in 1..Len(Options(conf)) : LET o == Options(conf)[n] IN
    o.key = "sites_csv" /\ ~Has(files, Place(base, o.path))
Sites(files, base, conf) == files[SitesPlace(base, conf)].sites
=============================================================================
