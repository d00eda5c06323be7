------------------------------- MODULE PicklesMC -------------------------------
EXTENDS Pickles, TLC, Json
CONSTANTS MaxLen
VARIABLE all
\* objects 1 and 2 have the same value; 3 another; 4 is a wrapper already
Objs == <<[obj |-> 1, cls |-> "list", val |-> "x", pre |-> FALSE],
          [obj |-> 2, cls |-> "list", val |-> "x", pre |-> FALSE],
          [obj |-> 3, cls |-> "dict", val |-> "y", pre |-> FALSE],
          [obj |-> 4, cls |-> "list", val |-> "z", pre |-> TRUE]>>
Seqs == UNION {[1..n -> 1..4] : n \in 0..MaxLen}
MCInit == \E s \in Seqs : all = [n \in 1..Len(s) |-> Objs[s[n]]] /\ Begin(all)
MCNext == Pickle /\ UNCHANGED all
Done == todo = <<>>
Faithful == \A n \in 1..Len(out) : out[n].val = all[n].val /\ out[n].cls = all[n].cls
Shared == \A n, m \in 1..Len(out) : (out[n].w = out[m].w) <=> (all[n].obj = all[m].obj)
Kept == \A n \in 1..Len(out) : out[n].given <=> all[n].pre
Complete == Done => Len(out) = Len(all)
Emit == (out = <<>>) => PrintT("SCN " \o ToJson([objs |-> [n \in 1..Len(all) |-> all[n].obj]]))
=============================================================================
