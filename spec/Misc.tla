--------------------------------- MODULE Misc ---------------------------------
(* The small utilities of openquake.commonlib.general.                       *)
EXTENDS Texts, TraceBase

VARIABLES k, verdict

T == Traces[k]
TraceInit == k \in 1..Len(Traces) /\ verdict = "ok"

\* first occurrences, in order: read the values one at a time
RECURSIVE DistinctFrom(_, _, _)
DistinctFrom(s, known, acc) ==
    IF s = <<>> THEN acc
    ELSE IF Head(s) \in known THEN DistinctFrom(Tail(s), known, acc)
    ELSE DistinctFrom(Tail(s), known \cup {Head(s)}, Append(acc, Head(s)))

\* is q the smallest integer not below a/b (below or above it by very little,
\* if eps is negative or positive)
IsCeil(q, a, b, eps) == IF eps > 0 THEN q * b > a /\ (q - 1) * b <= a
                        ELSE q * b >= a /\ (q - 1) * b < a

TrueWords == {"true", "yes", "t", "1"}

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

Judge ==
    CASE T.call = "distinct" -> FirstFailing(<<
            <<"distinct-fails-with-" \o T.out, T.out = "ok">>,
            <<"first-occurrences-in-order", T.result = DistinctFrom(T.keys, {}, <<>>)>>,
            <<"argument-altered", T.after = T.keys>> >>)
      [] T.call = "ceil" -> FirstFailing(<<
            <<"ceil-fails-with-" \o T.out, T.out = "ok">>,
            <<"smallest-integer-not-below", IsCeil(T.result, T.a, T.b, T.eps)>>,
            <<"is-an-integer", T.isint>> >>)
      [] T.call = "str2bool" -> FirstFailing(<<
            <<"str2bool-fails-with-" \o T.out, T.out = "ok">>,
            <<"true-iff-a-documented-word", T.result = (Lower(T.text) \in TrueWords)>> >>)
      [] T.call = "writetmp" -> FirstFailing(<<
            <<"writetmp-fails-with-" \o T.out, T.out = "ok">>,
            <<"is-a-file", T.isfile>>,
            <<"in-the-directory-asked-for", T.indir>>,
            <<"only-this-file-is-created", T.created = 1>>,
            <<"prefix", StartsWith(T.base, T.prefix)>>,
            <<"suffix", EndsWith(T.base, T.suffix)>>,
            <<"content", T.read = T.content>>,
            <<"distinct-names", T.fresh>> >>)

Finish == /\ verdict # "said"
          /\ Say(k, 1, Judge)
          /\ verdict' = "said"
          /\ UNCHANGED k
TraceNext == Finish
=============================================================================
