------------------------------- MODULE Records -------------------------------
(* A record: texts in the columns of its type, each column with the rule of  *)
(* its field (Texts.tla), and extra constraints over the whole record.       *)
(*                                                                           *)
(* A type is [cols, checks]: cols a sequence of [name, rule]; a check is     *)
(* [c |-> "together", of |-> <<i, j>>] (both columns empty or none) or       *)
(* [c |-> "differ", of |-> <<i, j>>].                                        *)
EXTENDS Texts

VARIABLES typ, row, out
rvars == <<typ, row, out>>

Width == Len(typ.cols)
Cols == 1..Width

ColOK(i) == Accepts(typ.cols[i].rule, row[i])
\* the columns that cannot be converted, in order
BadCols == SelectSeq([i \in Cols |-> i], LAMBDA i : ~ColOK(i))

CheckOK(c) == LET x == row[c.of[1]]  y == row[c.of[2]] IN
              CASE c.c = "together" -> (x = "") = (y = "")
                [] c.c = "differ" -> x # y

Valid == BadCols = <<>> /\ \A n \in 1..Len(typ.checks) : CheckOK(typ.checks[n])

\* a column is named by its name or by its (possibly negative) position
HasName(nm) == \E i \in Cols : typ.cols[i].name = nm
ByName(nm) == CHOOSE i \in Cols : typ.cols[i].name = nm
ByPos(p) == IF p < 0 THEN p + Width + 1 ELSE p + 1
Target(k) == IF k.by = "name" THEN (IF HasName(k.name) THEN ByName(k.name) ELSE 0)
             ELSE IF ByPos(k.pos) \in Cols THEN ByPos(k.pos) ELSE 0
NoSuch(k) == IF k.by = "name" THEN "KeyError" ELSE "IndexError"

Refuse(why) == out' = why /\ UNCHANGED <<typ, row>>

Assign(k, v) ==
    LET i == Target(k) IN
    IF i = 0 THEN Refuse(NoSuch(k))
    ELSE IF ~Accepts(typ.cols[i].rule, v) THEN Refuse("ValueError")
    ELSE row' = [row EXCEPT ![i] = v] /\ out' = "ok" /\ UNCHANGED typ
-----------------------------------------------------------------------------
ValidMeansConvertible == Valid => \A i \in Cols : ColOK(i)
\* an assignment never makes a convertible column inconvertible
AssignKeepsGood == [][\A i \in 1..Len(row) : Accepts(typ.cols[i].rule, row[i])
                        => Accepts(typ.cols[i].rule, row'[i])]_rvars
=============================================================================
