------------------------------ MODULE RiskModels ------------------------------
(* Risk models loaded from vulnerability and fragility files.  The state is   *)
(* the files present: key -> vulnerability model (as in module Models).       *)
(* A model, once loaded, is a map taxonomy -> loss type -> function.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RangeOf(q) == {q[n] : n \in 1..Len(q)}
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))

CostType(lt) == IF lt = "fatalities" THEN "occupants" ELSE lt
LossType(ct) == IF ct = "occupants" THEN "fatalities" ELSE ct
Key(lt, retro) == CostType(lt) \o "_vulnerability" \o (IF retro THEN "_retrofitted" ELSE "")

\* the functions in a file, in order
Functions(m) == Flatten([n \in 1..Len(m.sets) |-> LET s == m.sets[n] IN
    [j \in 1..Len(s.funs) |-> LET f == s.funs[j] IN
        [tax |-> f.id, imt |-> s.imt, imls |-> s.imls, lr |-> f.lr, cv |-> f.cv, dist |-> f.dist]]])
Taxonomies(m) == {Functions(m)[n].tax : n \in 1..Len(Functions(m))}
Zero(x) == x \in {"0", "0.0"}
Invalid(f) == \/ Len(f.lr) # Len(f.imls) \/ Len(f.cv) # Len(f.imls)
              \/ \E n \in 1..Len(f.lr) : Zero(f.lr[n]) /\ ~Zero(f.cv[n])
\* the taxonomies that make a file unacceptable
Faulty(m) == LET fs == Functions(m) IN
    {fs[n].tax : n \in {n \in 1..Len(fs) : Invalid(fs[n]) \/ \E j \in 1..n-1 : fs[j].tax = fs[n].tax}}

Wanted(files, lts, retro) == {lt \in RangeOf(lts) : Key(lt, retro) \in DOMAIN files}
File(files, lt, retro) == files[Key(lt, retro)]
AtFault(files, lts, retro) == UNION {Faulty(File(files, lt, retro)) : lt \in Wanted(files, lts, retro)}
FunctionOf(m, tax) == LET fs == Functions(m)
                          f == fs[CHOOSE n \in 1..Len(fs) : fs[n].tax = tax] IN
    [imt |-> f.imt, imls |-> f.imls, lr |-> f.lr, cv |-> f.cv, dist |-> f.dist]
Loaded(files, lts, retro) ==
    [tax \in UNION {Taxonomies(File(files, lt, retro)) : lt \in Wanted(files, lts, retro)} |->
        [lt \in {lt \in Wanted(files, lts, retro) : tax \in Taxonomies(File(files, lt, retro))} |->
            FunctionOf(File(files, lt, retro), tax)]]

\* damage models, from a fragility model with distinct taxonomies
States(m) == <<"no_damage">> \o m.ls
DamageOf(m, s) ==
    [imt |-> s.imt, funs |-> [n \in 1..Len(m.ls) |->
        IF m.kind = "fragc" THEN [mean |-> s.pars[n][1], stddev |-> s.pars[n][2]]
        ELSE IF s.ndl = "" THEN [imls |-> s.imls, poes |-> s.poes[n], limit |-> s.imls[1]]
        ELSE [imls |-> <<s.ndl>> \o s.imls, poes |-> <<"0.0">> \o s.poes[n], limit |-> s.ndl]]]
Damage(m) == [tax \in {m.sets[n].tax : n \in 1..Len(m.sets)} |->
                DamageOf(m, m.sets[CHOOSE n \in 1..Len(m.sets) : m.sets[n].tax = tax])]
=============================================================================
