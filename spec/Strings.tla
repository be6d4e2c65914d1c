------------------------------ MODULE Strings ------------------------------
(* Small helpers on strings (TLC treats strings as sequences for Len, SubSeq *)
(* and \o).                                                                  *)
EXTENDS Naturals, Sequences

HasSuffix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
HasPrefix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
DropSuffix(s, t) == IF HasSuffix(s, t) THEN SubSeq(s, 1, Len(s) - Len(t)) ELSE s
Contains(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE DedupRec(_, _, _)
DedupRec(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF \E j \in 1..Len(acc) : acc[j] = s[i] THEN DedupRec(s, i + 1, acc)
    ELSE DedupRec(s, i + 1, Append(acc, s[i]))
Dedup(s) == DedupRec(s, 1, <<>>)
=============================================================================
