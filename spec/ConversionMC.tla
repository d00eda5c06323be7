----------------------------- MODULE ConversionMC -----------------------------
(* A converter used repeatedly on the descriptions of a model: the results    *)
(* made so far, and the descriptions themselves.                              *)
EXTENDS Conversion, Json
CONSTANTS MaxSteps

Base(t) == [t |-> t, id |-> "7", name |-> "src x", trt |-> "Volcanic", msr |-> "PeerMSR",
            rar |-> 1536, usd |-> 0, lsd |-> 10240, dip |-> 46080, rake |-> -1024,
            lines |-> CASE t = "point" -> << << <<100, 200>> >> >>
                        [] t = "area" -> << << <<0, 0>>, <<1024, 0>>, <<1024, 512>> >> >>
                        [] t \in {"complex", "crup"} -> << << <<0, 0, 5>>, <<10, 0, 5>> >>,
                              << <<0, 1, 20>>, <<10, 1, 20>> >>, << <<0, 2, 50>>, <<10, 2, 50>> >> >>
                        [] OTHER -> << << <<0, 0>>, <<10, 7>> >> >>,
            surf |-> "simple",
            planes |-> << [strike |-> 5, dip |-> 92160, c |-> << <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 3>>, <<1, 1, 3>> >>],
                          [strike |-> 6, dip |-> 9216, c |-> << <<0, 5, 1>>, <<1, 5, 1>>, <<0, 6, 3>>, <<1, 6, 3>> >>] >>,
            mfd |-> [t |-> "inc", a |-> 1024, b |-> 900, min |-> 5120, max |-> 7168, bin |-> 512,
                     rates |-> <<3, 0, 1>>],
            npd |-> << <<512, 0, 46080, 0>>, <<512, 1024, 9216, 5>> >>,
            hdd |-> << <<256, 4096>>, <<768, 8192>> >>,
            mag |-> 6656, hypo |-> <<3, 4, 5>>, bad |-> FALSE]
Char(s) == IF s = "complex" THEN [Base("complex") EXCEPT !.t = "char", !.surf = s]
           ELSE [Base("simple") EXCEPT !.t = "char", !.surf = s]
Bases == {Base(t) : t \in {"point", "area", "simple", "complex", "srup", "crup"}}
         \cup {Char(s) : s \in {"simple", "complex", "planar"}}
\* one feature changed, to another valid value or to an invalid one
Variants(d) == {d, [d EXCEPT !.mfd.t = "gr"], [d EXCEPT !.id = "8"], [d EXCEPT !.name = "src y"],
    [d EXCEPT !.trt = "Stable"], [d EXCEPT !.msr = "WC1994"], [d EXCEPT !.rar = 1024],
    [d EXCEPT !.usd = 1024], [d EXCEPT !.lsd = 2048], [d EXCEPT !.dip = 1024], [d EXCEPT !.rake = 0],
    [d EXCEPT !.mag = 7168], [d EXCEPT !.hypo = <<4, 3, 5>>],
    [d EXCEPT !.lines[1][1] = IF Len(@) = 2 THEN <<@[2], @[1]>> ELSE <<@[3], @[2], @[1]>>],
    [d EXCEPT !.mfd.min = 4096], [d EXCEPT !.mfd.max = 8192], [d EXCEPT !.mfd.rates = <<1, 0, 3>>],
    [d EXCEPT !.npd[1][2] = 7], [d EXCEPT !.hdd[1][2] = 7], [d EXCEPT !.hdd = <<@[2], @[1]>>],
    [d EXCEPT !.planes[1].strike = 7], [d EXCEPT !.planes[2].c[2] = <<9, 9, 9>>],
    [d EXCEPT !.planes = <<@[2], @[1]>>]}
Broken(d) == {[d EXCEPT !.bad = TRUE], [d EXCEPT !.lines[1][1][1] = 200000], [d EXCEPT !.lines[1][1][2] = -100000],
    [d EXCEPT !.msr = "Nobody"], [d EXCEPT !.rar = 0], [d EXCEPT !.lsd = 0], [d EXCEPT !.dip = 92161],
    [d EXCEPT !.dip = 0], [d EXCEPT !.usd = -1], [d EXCEPT !.mfd.rates = <<>>], [d EXCEPT !.mfd.rates[2] = -1],
    [d EXCEPT !.mfd.bin = 0], [d EXCEPT !.npd[1][1] = 511], [d EXCEPT !.npd = <<>>], [d EXCEPT !.hdd[1][1] = 0],
    [d EXCEPT !.npd[2][3] = 0], [d EXCEPT !.mag = 0], [d EXCEPT !.hypo[2] = 99999],
    [d EXCEPT !.mfd.t = "gr", !.mfd.max = 5120], [d EXCEPT !.mfd.t = "gr", !.mfd.b = 0]}
Pars == {[inv |-> 51200, rms |-> 2048, bin |-> 512, disc |-> 1024],
         [inv |-> 0, rms |-> 1024, bin |-> -1, disc |-> 2048]}
Descs == UNION {Variants(b) \cup Broken(b) : b \in Bases}

VARIABLES desc, orig, par, results
cvars == <<desc, orig, par, results>>
Init == /\ desc \in Descs /\ orig = desc /\ par \in Pars /\ results = <<>>
Convert == /\ Len(results) < MaxSteps
           /\ results' = Append(results, IF Faults(desc, par) = {} THEN Hazard(desc, par)
                                         ELSE {"refused"})
           /\ UNCHANGED <<desc, orig>>
           /\ par' \in Pars
Next == Convert
NotAltered == desc = orig
\* which attributes matter for which kind
Relevant(a, b) ==
    Faults(a, par) = {} /\ Faults(b, par) = {} /\ Hazard(a, par) = Hazard(b, par) =>
       /\ a.t = b.t /\ (IsSource(a) => a.id = b.id /\ a.name = b.name /\ a.trt = b.trt)
       /\ a.t \in {"point", "area"} => a.npd = b.npd /\ a.hdd = b.hdd
       /\ a.t \notin {"char"} => a.lines = b.lines
       /\ a.t = "char" => a.surf = b.surf /\ IF a.surf = "planar" THEN a.planes = b.planes ELSE a.lines = b.lines
       /\ a.t \in {"point", "area", "simple", "srup"} => a.usd = b.usd /\ a.lsd = b.lsd
       /\ a.t \in {"simple", "srup"} => a.dip = b.dip
       /\ a.t \notin {"point", "area"} => a.rake = b.rake
       /\ ~IsSource(a) => a.mag = b.mag /\ a.hypo = b.hypo
       /\ IsSource(a) => a.mfd.t = b.mfd.t /\ a.mfd.min = b.mfd.min
                         /\ (a.mfd.t = "inc" => a.mfd.rates = b.mfd.rates)
       /\ a.t \in {"point", "area", "simple", "complex"} => a.msr = b.msr /\ a.rar = b.rar
\* different descriptions give different objects: nothing is lost
NothingLost == results = <<>> =>
    \A b \in Bases : b.t = desc.t => \A v \in Variants(b) : Relevant(desc, v)
Repeatable == \A m \in 1..Len(results) :
    results[m] # {"refused"} =>
       \E p \in Pars : results[m] = Hazard(desc, p)
Known == \A m \in 1..Len(results) : results[m] = {"refused"} => desc \notin Bases \/ desc.mfd.t = "gr"
Emit == results = <<>> => PrintT("SCN " \o ToJson([desc |-> desc, par |-> par]))
Stop == FALSE /\ UNCHANGED cvars
=============================================================================
