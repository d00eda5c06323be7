----------------------------- MODULE ArchivesMC -----------------------------
EXTENDS Archives, Json
CONSTANTS Names, Texts, MaxOps, MaxHandles,
          Quiet    \* only every so many steps: closing the archive, listing, testing
VARIABLES st, hist
avars == <<st, hist>>
O(op) == [op |-> op, name |-> "", h |-> 0, n |-> 0, text |-> ""]
Ops == {[O("openw") EXCEPT !.name = x] : x \in Names} \cup {[O("openr") EXCEPT !.name = x] : x \in Names}
       \cup {[O("contains") EXCEPT !.name = x] : x \in Names}
       \cup {[O("write") EXCEPT !.h = h, !.text = t] : h \in 1..MaxHandles, t \in Texts}
       \cup {[O("read") EXCEPT !.h = h, !.n = n] : h \in 1..MaxHandles, n \in {1, 3}}
       \cup {[O("readline") EXCEPT !.h = h] : h \in 1..MaxHandles}
       \cup {[O("closef") EXCEPT !.h = h] : h \in 1..MaxHandles}
       \cup {O("close"), O("fail"), [O("list") EXCEPT !.text = "a"]}
Init == st = EmptyArchive /\ hist = <<>>
Do(op) == /\ Len(hist) < MaxOps /\ Enabled(st, op)
          /\ op.op \in {"close", "fail", "list", "contains"} => Len(hist) % Quiet = Quiet - 1
          /\ op.op \in {"openw", "openr"} => Len(st.handles) < MaxHandles
          /\ st' = Apply(st, op) /\ hist' = Append(hist, op)
Next == \E op \in Ops : Do(op)
View == <<st, Len(hist)>>

\* the text last written and closed under every name
RECURSIVE Text(_, _)
Text(h, n) == IF n = 0 THEN "" ELSE Text(h, n - 1) \o
              (IF hist[n].op = "write" /\ hist[n].h = h THEN hist[n].text ELSE "")
\* a complete file is the text of a writer, whole
Complete == \A name \in DOMAIN st.files :
    \E h \in 1..Len(st.handles) : /\ st.handles[h].name = name /\ st.handles[h].mode = "closed"
                                  /\ st.files[name] = Text(h, Len(hist))
\* every file whose writers are all closed exists and is the one written last
LastWins == \A h \in 1..Len(st.handles) :
    (/\ st.handles[h].mode = "closed" /\ \E n \in 1..Len(hist) : hist[n].op = "write" /\ hist[n].h = h
     /\ \A g \in (h + 1)..Len(st.handles) : st.handles[g].name # st.handles[h].name
                                            \/ st.files[st.handles[h].name] = Text(h, Len(hist)))
    => st.handles[h].name \in DOMAIN st.files
ReadersStable == \A h \in 1..Len(st.handles) : LET x == st.handles[h] IN
    x.mode = "r" => x.pos <= Len(x.buf) /\ st.files[x.name] = x.buf
AllClosedAfterClose == hist # <<>> /\ hist[Len(hist)].op \in {"close", "fail"} =>
    OpenWriters(st) = {} /\ {st.handles[h].name : h \in 1..Len(st.handles)} \subseteq DOMAIN st.files
\* a walk is printed when it is long enough
Emit == Len(hist) = MaxOps => PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
