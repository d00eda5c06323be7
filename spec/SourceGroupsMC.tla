---------------------------- MODULE SourceGroupsMC ----------------------------
(* The process of reading a model, filtering and blocking, one source at a    *)
(* time, against the declarative results of SourceGroups.                     *)
EXTENDS SourceGroups, Json
CONSTANTS MaxSrc, Ids, Trts, Kinds, MaxW, Accs, Discs, Shifts

VARIABLES file,    \* the sources of the file with their identifiers
          unc,     \* the uncertainty applied to the sources
          pos,     \* sources read so far
          groups,  \* group of each region, in order of appearance
          mode,    \* "read", "dup", "ready", "gen", "end"
          sel,     \* group asked for blocks
          acc, max, disc,
          gpos,    \* sources of the group visited
          parts, rejected, open, done
vars == <<file, unc, pos, groups, mode, sel, acc, max, disc, gpos, parts, rejected, open, done>>

MkSrc(root, t, trt) ==
    [root |-> root, t |-> t, trt |-> trt, lo |-> 20, hi |-> 22 + 2 * root,
     mags |-> IF root % 2 = 1 THEN <<20, 22 + 2 * root>> ELSE <<22>>,
     k |-> 2, loc |-> IF t = "point" THEN <<root, 0>> ELSE <<>>,
     rect |-> IF t = "area" THEN <<0, 0, 1, root>> ELSE <<>>]
Files == UNION {[1..n -> Ids \X Kinds \X Trts] : n \in 0..MaxSrc}
MkFile(f) == [n \in 1..Len(f) |-> [id |-> f[n][1], s |-> MkSrc(n, f[n][2], f[n][3])]]

Init == /\ \E f \in Files : file = MkFile(f)
        /\ unc \in [shift : Shifts, trt : {None}]
        /\ pos = 0 /\ groups = <<>> /\ mode = "read"
        /\ sel = 0 /\ acc = {} /\ max = 0 /\ disc = 1 /\ gpos = 0
        /\ parts = <<>> /\ rejected = 0 /\ open = <<>> /\ done = <<>>

Cur == file[pos + 1]
Where(trt) == {n \in 1..Len(groups) : groups[n].trt = trt}
Read == /\ mode = "read" /\ pos < Len(file)
        /\ IF \E n \in 1..pos : file[n].id = Cur.id
           THEN mode' = "dup" /\ UNCHANGED <<groups, pos>>
           ELSE LET s == Applied(Cur.s, unc) IN
                /\ pos' = pos + 1 /\ UNCHANGED mode
                /\ IF Where(s.trt) = {}
                   THEN groups' = Append(groups, Added(EmptyGroup(s.trt), s))
                   ELSE LET n == CHOOSE n \in Where(s.trt) : TRUE
                        IN groups' = [groups EXCEPT ![n] = Added(@, s)]
        /\ UNCHANGED <<file, unc, sel, acc, max, disc, gpos, parts, rejected, open, done>>
\* the groups are put in order
EndRead == /\ mode = "read" /\ pos = Len(file)
           /\ mode' = "ready"
           /\ \E q \in [1..Len(groups) -> RangeOf(groups)] :
                 Ordered(q) /\ RangeOf(q) = RangeOf(groups) /\ groups' = q
           /\ UNCHANGED <<file, unc, pos, sel, acc, max, disc, gpos, parts, rejected, open, done>>
Ask == /\ mode = "ready"
       /\ \E n \in 1..Len(groups), a \in Accs, m \in 1..MaxW, d \in Discs :
             sel' = n /\ acc' = a /\ max' = m * 50 /\ disc' = d
       /\ mode' = "gen"
       /\ UNCHANGED <<file, unc, pos, groups, gpos, parts, rejected, open, done>>
Limit(b) == Heavy(b, max, Len(groups[sel].srcs))
RECURSIVE PutAll(_, _, _)
PutAll(o, dn, ps) ==
    IF ps = <<>> THEN <<o, dn>>
    ELSE LET p == Head(ps) IN
         IF Ruptures(p) = 0 THEN PutAll(o, dn, Tail(ps))
         ELSE IF o # <<>> /\ Limit(Append(o, p)) THEN PutAll(<<p>>, Append(dn, o), Tail(ps))
         ELSE PutAll(Append(o, p), dn, Tail(ps))
Visit == /\ mode = "gen" /\ gpos < Len(groups[sel].srcs)
         /\ gpos' = gpos + 1
         /\ LET s == groups[sel].srcs[gpos + 1] IN
            IF s.root \in acc
            THEN LET ps == Parts(s, disc) r == PutAll(open, done, ps) IN
                 /\ parts' = parts \o ps /\ UNCHANGED rejected
                 /\ open' = r[1] /\ done' = r[2]
            ELSE rejected' = rejected + 1 /\ UNCHANGED <<parts, open, done>>
         /\ UNCHANGED <<file, unc, pos, groups, mode, sel, acc, max, disc>>
EndGen == /\ mode = "gen" /\ gpos = Len(groups[sel].srcs)
          /\ done' = IF open = <<>> THEN done ELSE Append(done, open)
          /\ open' = <<>> /\ mode' = "end"
          /\ UNCHANGED <<file, unc, pos, groups, sel, acc, max, disc, gpos, parts, rejected>>
Next == Read \/ EndRead \/ Ask \/ Visit \/ EndGen

Sources == [n \in 1..pos |-> Applied(file[n].s, unc)]
\* every source read so far is in exactly one group, in order
OnceEach == \A n \in 1..Len(groups) :
               /\ groups[n] = GroupOf(groups[n].trt, OfRegion(Sources, groups[n].trt))
               /\ groups[n].srcs # <<>>
AllThere == Regions(Sources) = {groups[n].trt : n \in 1..Len(groups)}
            /\ Cardinality(Regions(Sources)) = Len(groups)
ReadIsGroupsOf == mode = "ready" => groups = GroupsOf(Sources)
DupRefused == /\ mode = "dup" => \E m, n \in 1..Len(file) : m < n /\ file[m].id = file[n].id
              /\ mode \in {"ready", "gen", "end"} =>
                    \A m, n \in 1..Len(file) : m < n => file[m].id # file[n].id
Range == \A n \in 1..Len(groups) :
            /\ groups[n].min = MinOf({s.lo : s \in RangeOf(groups[n].srcs)})
            /\ groups[n].max = MaxOf({s.hi : s \in RangeOf(groups[n].srcs)})
GenDone == mode = "end" =>
    LET g == groups[sel] h == Generated(g, acc, disc) IN
    /\ IsBlocking(done, g, acc, max, disc)
    /\ h.srcs = parts /\ h.filt = Len(parts) /\ h.tot = Len(parts) + rejected
    /\ h.nrup = Total([n \in 1..Len(done) |-> Total(Weights(done[n]))])
\* splitting keeps the ruptures of the faults and spreads those of the areas
Conserved == \A n \in 1..Len(file), d \in Discs :
    LET s == file[n].s ps == Parts(s, d) IN
    /\ s.t # "area" => Total(Weights(ps)) = Ruptures(s)
    /\ s.t = "area" => \A m \in 1..Len(ps) : Ruptures(ps[m]) = Len(s.mags) * s.k
    /\ \A m, p \in 1..Len(ps) : m # p => ps[m] # ps[p]

\* scenarios for the replay on the real code
Emit == (mode = "gen" /\ gpos = 0) =>
    PrintT("SCN " \o ToJson([file |-> file, shift |-> unc.shift, sel |-> sel,
                             acc |-> acc, max |-> max, disc |-> disc]))
EmitDup == mode = "dup" =>
    PrintT("SCN " \o ToJson([file |-> file, shift |-> unc.shift, sel |-> 0,
                             acc |-> {0}, max |-> 0, disc |-> 1]))
NotGen == mode # "gen"
KindsAll == {"point", "area", "simple", "char"}
KindsTwo == {"point", "simple"}
KindsThree == {"area", "simple", "char"}
AccsAll == {{1, 2, 3}, {1, 3}, {2}, {}}
=============================================================================
