-------------------------------- MODULE Pickles --------------------------------
(* Pickling of sequences (openquake.commonlib.parallel.pickle_sequence,      *)
(* Pickled, safely_call with pickled arguments): one wrapper per element, in *)
(* order, shared by the elements that are the same object.                   *)
(*                                                                           *)
(* An element is [obj, cls, val, pre]: identity, class, value and whether it *)
(* is a wrapper already; cls and val are then those of the wrapped object.   *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES todo, cache, out
pvars == <<todo, cache, out>>

Begin(seq) == todo = seq /\ cache = {} /\ out = <<>>
\* a wrapper is [w: its number, cls, val, given: is it the element itself]
Known(x) == {c \in cache : c.obj = x.obj}
Pickle == LET x == Head(todo)
              wrap == IF Known(x) # {} THEN CHOOSE c \in Known(x) : TRUE
                      ELSE [obj |-> x.obj, w |-> Cardinality(cache) + 1, cls |-> x.cls,
                            val |-> x.val, given |-> x.pre] IN
          /\ todo # <<>>
          /\ out' = Append(out, wrap)
          /\ cache' = cache \cup {wrap}
          /\ todo' = Tail(todo)
=============================================================================
