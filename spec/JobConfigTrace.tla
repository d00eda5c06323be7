--------------------------- MODULE JobConfigTrace ---------------------------
(* Histories of directory changes, of files being written and of            *)
(* configurations parsed by the real code.  Observed paths are places:       *)
(* [abs: written as absolute, place: where it is].                           *)
EXTENDS JobConfig, TraceBase
VARIABLES k, i, files, cwd, verdict
T == Traces[k]
Ev == T.events[i]
OneOf(S) == IF S = {} THEN "nothing" ELSE CHOOSE x \in S : TRUE
AsMap(list) == [x \in {list[n].key : n \in 1..Len(list)} |->
                  list[CHOOSE n \in 1..Len(list) : list[n].key = x].val]
Conf == files[Place(cwd, Ev.name)].conf
JudgeParse ==
    LET b == Base(cwd, Ev.name)  c == Conf IN
    IF Refused(files, b, c) THEN FirstFailing(<< <<"missing-file-accepted", Ev.out # "ok">> >>)
 ELSE IF Ev.out # "ok" /\ MayRefuse(files, b, c) THEN "ok"
    ELSE Then(FirstFailing(<< <<"outcome-is-" \o Ev.out, Ev.out = "ok">> >>),
      LET plain == Plain(c)  seen == AsMap(Ev.plain)
          inputs == Inputs(b, c)  got == AsMap(Ev.inputs)
          lost == DOMAIN plain \ DOMAIN seen
          extra == DOMAIN seen \ DOMAIN plain
          wrong == {x \in DOMAIN plain \cap DOMAIN seen : plain[x] # seen[x]}
          lostf == DOMAIN inputs \ DOMAIN got
          extraf == DOMAIN got \ DOMAIN inputs
          wrongf == {x \in DOMAIN inputs \cap DOMAIN got : got[x] # [abs |-> TRUE, place |-> inputs[x]]} IN
      << <<"lost-option-" \o OneOf(lost), lost = {}>>,
         <<"added-option-" \o OneOf(extra), extra = {}>>,
         <<"value-of-" \o OneOf(wrong), wrong = {}>>,
         <<"lost-input-" \o OneOf(lostf), lostf = {}>>,
         <<"added-input-" \o OneOf(extraf), extraf = {}>>,
         <<"path-of-" \o OneOf(wrongf), wrongf = {}>>,
         <<"directory-of-the-configuration", Ev.base.place = b>>,
         <<"sites-given", Ev.hassites = HasSites(c)>>,
         <<"sites", HasSites(c) => Ev.wkt = "MULTIPOINT" /\ Ev.sites = Sites(files, b, c)>>,
         <<"source-models-given", Ev.hassources = HasTree(c)>>,
         <<"source-models", HasTree(c) =>
             {Ev.sources[n].place : n \in 1..Len(Ev.sources)} = Sources(files, b, c)>>,
         <<"source-models-not-absolute", \A n \in 1..Len(Ev.sources) : Ev.sources[n].abs>>,
         <<"source-models-repeated", HasTree(c) =>
             Len(Ev.sources) = Cardinality({Ev.sources[n].place : n \in 1..Len(Ev.sources)})>>,
         <<"source-models-not-sorted", Ev.ordered>> >>)
Judge == IF Ev.op = "parse" THEN JudgeParse ELSE "ok"
TraceInit == /\ k \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
             /\ files = <<>> /\ cwd = <<>>
Step == /\ verdict = "ok" /\ i <= Len(T.events)
        /\ LET v == Judge IN
           IF v = "ok"
           THEN /\ i' = i + 1 /\ UNCHANGED <<k, verdict>>
                /\ cwd' = IF Ev.op = "cd" THEN Place(cwd, Ev.name) ELSE cwd
                /\ files' = IF Ev.op = "write" THEN (Place(cwd, Ev.name) :> Ev.content) @@ files ELSE files
           ELSE Say(k, i, Ev.op \o ":" \o v) /\ verdict' = v /\ UNCHANGED <<k, i, files, cwd>>
Accept == /\ verdict = "ok" /\ i = Len(T.events) + 1
          /\ Say(k, i, "ok") /\ verdict' = "said" /\ UNCHANGED <<k, i, files, cwd>>
TraceNext == Step \/ Accept
=============================================================================
