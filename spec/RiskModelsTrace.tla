--------------------------- MODULE RiskModelsTrace ---------------------------
(* Histories of files written and of risk models loaded by the real code.    *)
EXTENDS RiskModels, TraceBase
VARIABLES k, i, files, verdict
T == Traces[k]
Ev == T.events[i]
OneOf(S) == IF S = {} THEN "nothing" ELSE CHOOSE x \in S : TRUE
\* observed lists of [key, val] as maps (repeated keys are looked for apart)
AsMap(list) == [x \in {list[n].key : n \in 1..Len(list)} |->
                  list[CHOOSE n \in 1..Len(list) : list[n].key = x].val]
Repeated(list) == Cardinality({list[n].key : n \in 1..Len(list)}) < Len(list)
Seen == [tax \in {Ev.models[n].key : n \in 1..Len(Ev.models)} |-> AsMap(AsMap(Ev.models)[tax])]
JudgeLoad ==
    LET bad == AtFault(files, Ev.lts, Ev.retro) IN
    IF bad # {} THEN FirstFailing(<<
        <<"outcome-is-" \o Ev.out \o "-expected-ValueError", Ev.out = "ValueError">>,
        <<"function-not-named", RangeOf(Ev.named) \cap bad # {}>> >>)
    ELSE Then(FirstFailing(<< <<"outcome-is-" \o Ev.out, Ev.out = "ok">> >>),
      LET want == Loaded(files, Ev.lts, Ev.retro)  seen == TLCEval(Seen)
          lost == DOMAIN want \ DOMAIN seen
          extra == DOMAIN seen \ DOMAIN want
          types == {t \in DOMAIN want \cap DOMAIN seen : DOMAIN want[t] # DOMAIN seen[t]}
          wrong == {t \in DOMAIN want \cap DOMAIN seen : want[t] # seen[t]} IN
      << <<"lost-taxonomy-" \o OneOf(lost), lost = {}>>,
         <<"added-taxonomy-" \o OneOf(extra), extra = {}>>,
         <<"taxonomy-repeated", ~Repeated(Ev.models)>>,
         <<"loss-types-of-" \o OneOf(types), types = {}>>,
         <<"functions-of-" \o OneOf(wrong), wrong = {}>>,
         <<"taxonomy-of-a-model", Ev.taxok>>,
         <<"insured-losses", Ev.insuredok>> >>)
JudgeDamage ==
    LET m == T.models[Ev.m]  want == Damage(m)  seen == AsMap(Ev.damage)
        lost == DOMAIN want \ DOMAIN seen
        extra == DOMAIN seen \ DOMAIN want
        imts == {t \in DOMAIN want \cap DOMAIN seen : want[t].imt # seen[t].imt}
        number == {t \in DOMAIN want \cap DOMAIN seen : Len(want[t].funs) # Len(seen[t].funs)}
        wrong == {t \in DOMAIN want \cap DOMAIN seen : want[t].funs # seen[t].funs} IN
    Then(FirstFailing(<< <<"outcome-is-" \o Ev.out, Ev.out = "ok">> >>),
      << <<"damage-states", Ev.states = States(m)>>,
         <<"lost-taxonomy-" \o OneOf(lost), lost = {}>>,
         <<"added-taxonomy-" \o OneOf(extra), extra = {}>>,
         <<"intensity-of-" \o OneOf(imts), imts = {}>>,
         <<"number-of-functions-of-" \o OneOf(number), number = {}>>,
         <<"functions-of-" \o OneOf(wrong), wrong = {}>>,
         <<"taxonomy-of-a-model", Ev.taxok>> >>)
Judge == CASE Ev.op \in {"write", "remove"} -> "ok"
           [] Ev.op = "load" -> JudgeLoad
           [] Ev.op = "damage" -> JudgeDamage
           [] Ev.op = "names" -> FirstFailing(<<
                <<"cost-type", Ev.cost = CostType(Ev.key)>>, <<"loss-type", Ev.loss = LossType(Ev.key)>> >>)
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
TraceInit == k \in 1..Len(Traces) /\ i = 1 /\ files = <<>> /\ verdict = "ok"
Step == /\ verdict = "ok" /\ i <= Len(T.events)
        /\ LET v == Judge IN
           IF v = "ok"
           THEN /\ i' = i + 1 /\ UNCHANGED <<k, verdict>>
                /\ files' = CASE Ev.op = "write" -> (Ev.key :> T.models[Ev.m]) @@ files
                              [] Ev.op = "remove" -> Without(files, Ev.key)
                              [] OTHER -> files
           ELSE Say(k, i, Ev.op \o ":" \o v) /\ verdict' = v /\ UNCHANGED <<k, i, files>>
Accept == /\ verdict = "ok" /\ i = Len(T.events) + 1
          /\ Say(k, i, "ok") /\ verdict' = "said" /\ UNCHANGED <<k, i, files>>
TraceNext == Step \/ Accept
=============================================================================
