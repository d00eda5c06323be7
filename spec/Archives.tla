------------------------------ MODULE Archives ------------------------------
(* The archives of files.  One state machine for the three kinds (directory,  *)
(* zip file, memory).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* state: the complete files, and the files opened so far
\*   files:   name -> content
\*   handles: sequence of [mode |-> "w" | "r" | "closed", name, buf, pos]
EmptyArchive == [files |-> <<>>, handles |-> <<>>]
Start(init) == [EmptyArchive EXCEPT !.files = init]
Put(f, name, text) == (name :> text) @@ f
OpenWriters(st) == {h \in 1..Len(st.handles) : st.handles[h].mode = "w"}
Writing(st) == {st.handles[h].name : h \in OpenWriters(st)}
Reading(st) == {st.handles[h].name : h \in {x \in 1..Len(st.handles) : st.handles[x].mode = "r"}}
Mode(st, h) == IF h \in 1..Len(st.handles) THEN st.handles[h].mode ELSE "none"

Lower(a, b) == IF a < b THEN a ELSE b
\* what a read gives, and where it ends; n = -1 reads everything
ReadEnd(x, n) == IF n < 0 THEN Len(x.buf) ELSE Lower(Len(x.buf), x.pos + n)
RECURSIVE LineEnd(_, _)
LineEnd(text, p) == IF p >= Len(text) THEN Len(text)
                    ELSE IF SubSeq(text, p + 1, p + 1) = "\n" THEN p + 1 ELSE LineEnd(text, p + 1)
EndOf(x, op) == IF op.op = "readline" THEN LineEnd(x.buf, x.pos) ELSE ReadEnd(x, op.n)

\* the operations that mean something in a state
Enabled(st, op) ==
    CASE op.op = "openw" -> op.name \notin Writing(st) \cup Reading(st)
      [] op.op = "openr" -> op.name \notin Writing(st)
      [] op.op = "write" -> Mode(st, op.h) = "w"
      [] op.op \in {"read", "readline"} -> Mode(st, op.h) = "r"
      [] op.op = "closef" -> Mode(st, op.h) \in {"w", "r"}
      [] op.op \in {"disk", "reopen"} -> OpenWriters(st) = {} /\ Reading(st) = {}
      [] OTHER -> TRUE       \* contains, list, close, fail

\* what is seen
Expected(st, op) ==
    CASE op.op = "openr" -> IF op.name \in DOMAIN st.files THEN "ok" ELSE "NotInArchive"
      [] op.op \in {"read", "readline"} ->
            LET x == st.handles[op.h] IN SubSeq(x.buf, x.pos + 1, EndOf(x, op))
      [] OTHER -> "ok"

RECURSIVE CloseAll(_, _)
CloseOne(st, h) ==
    LET x == st.handles[h] IN
    [st EXCEPT !.handles[h].mode = "closed",
               !.files = IF x.mode = "w" THEN Put(@, x.name, x.buf) ELSE @]
CloseAll(st, h) == IF h = 0 THEN st
                   ELSE LET s == CloseAll(st, h - 1) IN
                        IF s.handles[h].mode = "closed" THEN s ELSE CloseOne(s, h)
Apply(st, op) ==
    CASE op.op = "openw" ->
            [st EXCEPT !.handles = Append(@, [mode |-> "w", name |-> op.name, buf |-> "", pos |-> 0])]
      [] op.op = "openr" ->
            IF op.name \in DOMAIN st.files
            THEN [st EXCEPT !.handles = Append(@, [mode |-> "r", name |-> op.name,
                                                   buf |-> st.files[op.name], pos |-> 0])]
            ELSE st
      [] op.op = "write" -> [st EXCEPT !.handles[op.h].buf = @ \o op.text]
      [] op.op \in {"read", "readline"} -> [st EXCEPT !.handles[op.h].pos = EndOf(st.handles[op.h], op)]
      [] op.op = "closef" -> CloseOne(st, op.h)
      [] op.op \in {"close", "fail"} -> CloseAll(st, Len(st.handles))
      [] OTHER -> st
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
=============================================================================
