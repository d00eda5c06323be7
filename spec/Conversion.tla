------------------------------- MODULE Conversion -------------------------------
(* Conversion of NRML source and rupture descriptions to hazard objects       *)
(* (openquake.commonlib.source.NrmlHazardlibConverter).                       *)
(*                                                                            *)
(* All numbers are integers counting 1/1024.  A description is a record       *)
(*   t      "point" "area" "simple" "complex" "char" "srup" "crup"            *)
(*   id, name, trt, msr, rar, usd, lsd, dip, rake                             *)
(*   lines  the lines of the geometry, each a sequence of points <<x,y[,z]>>  *)
(*   surf   "simple", "complex" or "planar": the surface of "char"            *)
(*   planes sequence of [strike, dip, c], c the corners tl, tr, bl, br        *)
(*   mfd    [t, a, b, min, max, bin, rates], t = "gr" or "inc"                *)
(*   npd    nodal planes <<p, strike, dip, rake>>;  hdd depths <<p, depth>>   *)
(*   mag, hypo   of a rupture                                                 *)
(*   bad    the geometry text is corrupted                                    *)
(* The parameters of the calculation are [inv, rms, bin, disc]; inv = 0 and   *)
(* bin = -1 stand for a missing value.                                        *)
(* The result is described by the set of its leaf attributes "path=value".    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

One == 1024
RangeOf(s) == {s[n] : n \in 1..Len(s)}
Num(path, x) == {path \o "=" \o ToString(x)}
Txt(path, x) == {path \o "=" \o x}
Cls(path, x) == {path \o ".class=" \o x}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

Pt(path, c) == Num(path \o ".longitude", c[1]) \cup Num(path \o ".latitude", c[2])
               \cup Num(path \o ".depth", IF Len(c) > 2 THEN c[3] ELSE 0)
Pts(path, cs) == Num(path \o ".len", Len(cs)) \cup
                 UNION {Pt(path \o "." \o ToString(n), cs[n]) : n \in 1..Len(cs)}
Line(path, cs) == Cls(path, "Line") \cup Pts(path \o ".points", cs)
Lines(path, ls) == Num(path \o ".len", Len(ls)) \cup
                   UNION {Line(path \o "." \o ToString(n), ls[n]) : n \in 1..Len(ls)}

Mfd(path, m, par) ==
    IF m.t = "gr"
    THEN Cls(path, "TruncatedGRMFD") \cup Num(path \o ".a_val", m.a) \cup Num(path \o ".b_val", m.b)
         \cup Num(path \o ".min_mag", m.min) \cup Num(path \o ".max_mag", m.max)
         \cup Num(path \o ".bin_width", par.bin)
    ELSE Cls(path, "EvenlyDiscretizedMFD") \cup Num(path \o ".min_mag", m.min)
         \cup Num(path \o ".bin_width", m.bin)
         \cup Num(path \o ".occurrence_rates.len", Len(m.rates))
         \cup UNION {Num(path \o ".occurrence_rates." \o ToString(n), m.rates[n]) : n \in 1..Len(m.rates)}
Npd(path, q) == Cls(path, "PMF") \cup Num(path \o ".data.len", Len(q)) \cup
    UNION {LET p == path \o ".data." \o ToString(n) IN
           Num(p \o ".len", 2) \cup Num(p \o ".1", q[n][1]) \cup Cls(p \o ".2", "NodalPlane")
           \cup Num(p \o ".2.strike", q[n][2]) \cup Num(p \o ".2.dip", q[n][3])
           \cup Num(p \o ".2.rake", q[n][4]) : n \in 1..Len(q)}
Hdd(path, q) == Cls(path, "PMF") \cup Num(path \o ".data.len", Len(q)) \cup
    UNION {LET p == path \o ".data." \o ToString(n) IN
           Num(p \o ".len", 2) \cup Num(p \o ".1", q[n][1]) \cup Num(p \o ".2", q[n][2]) : n \in 1..Len(q)}
Tom(par) == IF par.inv = 0 THEN Txt("temporal_occurrence_model", "None")
            ELSE Cls("temporal_occurrence_model", "PoissonTOM")
                 \cup Num("temporal_occurrence_model.time_span", par.inv)

Common(d, par) == Txt("source_id", d.id) \cup Txt("name", d.name)
                  \cup Txt("tectonic_region_type", d.trt) \cup Mfd("mfd", d.mfd, par) \cup Tom(par)
Param(d, par) == Num("rupture_mesh_spacing", par.rms)
                 \cup Cls("magnitude_scaling_relationship", d.msr)
                 \cup Num("rupture_aspect_ratio", d.rar)
Depths(d) == Num("upper_seismogenic_depth", d.usd) \cup Num("lower_seismogenic_depth", d.lsd)

SimpleSurf(path, d, par) ==
    Cls(path, "SimpleFaultSurface") \cup Line(path \o ".data.fault_trace", d.lines[1])
    \cup Num(path \o ".data.upper_seismogenic_depth", d.usd)
    \cup Num(path \o ".data.lower_seismogenic_depth", d.lsd)
    \cup Num(path \o ".data.dip", d.dip) \cup Num(path \o ".data.mesh_spacing", par.rms)
ComplexSurf(path, d, par) ==
    Cls(path, "ComplexFaultSurface") \cup Lines(path \o ".data.edges", d.lines)
    \cup Num(path \o ".data.mesh_spacing", par.rms)
Plane(path, p, par) ==
    Cls(path, "PlanarSurface") \cup Num(path \o ".strike", p.strike) \cup Num(path \o ".dip", p.dip)
    \cup Num(path \o ".mesh_spacing", par.rms)
    \cup Pt(path \o ".top_left", p.c[1]) \cup Pt(path \o ".top_right", p.c[2])
    \cup Pt(path \o ".bottom_left", p.c[3]) \cup Pt(path \o ".bottom_right", p.c[4])
Surface(path, d, par) ==
    CASE d.surf = "simple" -> SimpleSurf(path, d, par)
      [] d.surf = "complex" -> ComplexSurf(path, d, par)
      [] OTHER -> Cls(path, "MultiSurface") \cup Num(path \o ".surfaces.len", Len(d.planes)) \cup
                  UNION {Plane(path \o ".surfaces." \o ToString(n), d.planes[n], par) : n \in 1..Len(d.planes)}
Rup(d) == {"class=Rupture", "tectonic_region_type=None"} \cup Num("mag", d.mag)
          \cup Num("rake", d.rake) \cup Pt("hypocenter", d.hypo)

\* the converted object
Hazard(d, par) ==
    CASE d.t = "point" ->
           {"class=PointSource"} \cup Common(d, par) \cup Param(d, par) \cup Depths(d)
           \cup Pt("location", <<d.lines[1][1][1], d.lines[1][1][2]>>)
           \cup Npd("nodal_plane_distribution", d.npd) \cup Hdd("hypocenter_distribution", d.hdd)
      [] d.t = "area" ->
           {"class=AreaSource", "location=None"} \cup Common(d, par) \cup Param(d, par) \cup Depths(d)
           \cup Cls("polygon", "Polygon") \cup Pts("polygon.points", d.lines[1])
           \cup Num("area_discretization", par.disc)
           \cup Npd("nodal_plane_distribution", d.npd) \cup Hdd("hypocenter_distribution", d.hdd)
      [] d.t = "simple" ->
           {"class=SimpleFaultSource"} \cup Common(d, par) \cup Param(d, par) \cup Depths(d)
           \cup Line("fault_trace", d.lines[1]) \cup Num("dip", d.dip) \cup Num("rake", d.rake)
      [] d.t = "complex" ->
           {"class=ComplexFaultSource"} \cup Common(d, par) \cup Param(d, par)
           \cup Lines("edges", d.lines) \cup Num("rake", d.rake)
      [] d.t = "char" ->
           {"class=CharacteristicFaultSource", "rupture_mesh_spacing=None",
            "magnitude_scaling_relationship=None", "rupture_aspect_ratio=None"}
           \cup Common(d, par) \cup Surface("surface", d, par) \cup Num("rake", d.rake)
      [] d.t = "srup" -> Rup(d) \cup SimpleSurf("surface", d, par)
                         \cup Txt("source_typology", "SimpleFaultSource")
      [] OTHER -> Rup(d) \cup ComplexSurf("surface", d, par)
                  \cup Txt("source_typology", "ComplexFaultSource")

-----------------------------------------------------------------------------
(* Descriptions that cannot be converted: the possible exceptions *)
When(cond, exc) == IF cond THEN {exc} ELSE {}
BadPoint(c) == c[1] > 180 * One \/ c[1] < -180 * One \/ c[2] > 90 * One \/ c[2] < -90 * One
BadPoints(ls) == \E n \in 1..Len(ls) : \E p \in 1..Len(ls[n]) : BadPoint(ls[n][p])
BadDip(x) == x <= 0 \/ x > 90 * One
MfdFaults(m, par) ==
    IF m.t = "gr"
    THEN IF par.bin = -1 THEN {"AssertionError"}
         ELSE When(par.bin <= 0 \/ m.min < 0 \/ m.max < m.min + par.bin \/ m.b <= 0, "ValueError")
    ELSE When(m.bin <= 0 \/ m.min < 0 \/ m.rates = <<>> \/ \E n \in 1..Len(m.rates) : m.rates[n] < 0,
              "ValueError")
ParFaults(d, par) == When(d.msr \notin {"WC1994", "PeerMSR", "PointMSR"}, "KeyError")
                     \cup When(par.rms <= 0 \/ d.rar <= 0, "ValueError")
DistFaults(d) == When(Sum([n \in 1..Len(d.npd) |-> d.npd[n][1]]) # One
                      \/ Sum([n \in 1..Len(d.hdd) |-> d.hdd[n][1]]) # One
                      \/ \E n \in 1..Len(d.npd) : BadDip(d.npd[n][3]), "ValueError")
GeoFaults(d) == When(d.bad \/ BadPoints(d.lines), "ValueError")
DepthFaults(d) == When(d.lsd <= d.usd, "ValueError")
SimpleFaults(d, par) == When(BadDip(d.dip) \/ d.usd < 0 \/ par.rms <= 0, "ValueError") \cup DepthFaults(d)
SpacingFaults(par) == When(par.rms <= 0, "ValueError")
RupFaults(d) == When(d.mag <= 0 \/ BadPoint(d.hypo), "ValueError")

Faults(d, par) ==
    CASE d.t = "point" -> GeoFaults(d) \cup MfdFaults(d.mfd, par) \cup ParFaults(d, par)
                          \cup DistFaults(d) \cup DepthFaults(d)
      [] d.t = "area" -> GeoFaults(d) \cup MfdFaults(d.mfd, par) \cup ParFaults(d, par)
                         \cup DistFaults(d) \cup DepthFaults(d)
                         \cup When(Len(d.lines[1]) < 3, "ValueError")
      [] d.t = "simple" -> GeoFaults(d) \cup MfdFaults(d.mfd, par) \cup ParFaults(d, par)
                           \cup SimpleFaults(d, par)
      [] d.t = "complex" -> GeoFaults(d) \cup MfdFaults(d.mfd, par) \cup ParFaults(d, par)
      [] d.t = "char" -> MfdFaults(d.mfd, par) \cup
           (CASE d.surf = "simple" -> GeoFaults(d) \cup SimpleFaults(d, par)
              [] d.surf = "complex" -> GeoFaults(d) \cup SpacingFaults(par)
              [] OTHER -> IF d.planes = <<>> THEN {} ELSE SpacingFaults(par))
      [] d.t = "srup" -> GeoFaults(d) \cup SimpleFaults(d, par) \cup RupFaults(d)
      [] OTHER -> GeoFaults(d) \cup SpacingFaults(par) \cup RupFaults(d)
IsSource(d) == d.t \notin {"srup", "crup"}
=============================================================================
