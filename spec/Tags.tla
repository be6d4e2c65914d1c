-------------------------------- MODULE Tags ------------------------------
(* The language of struct tags. A tag is a list of modifiers separated by     *)
(* spaces, a modifier is a name, in front of which there may be a list of     *)
(* dialects, and behind which there may be a value. A value is plain or       *)
(* enclosed in braces, which nest. The value of a modifier, in turn, is a     *)
(* value followed by a tag.                                                   *)
EXTENDS Naturals, Sequences

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Has(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

RECURSIVE Skip(_, _), Until(_, _, _), Close(_, _, _), Split(_, _)
Skip(s, i) == IF i <= Len(s) /\ Ch(s, i) = " " THEN Skip(s, i + 1) ELSE i
(* The first position from i on where a character of cs is, or the end. *)
Until(s, i, cs) == IF i > Len(s) \/ Ch(s, i) \in cs THEN i ELSE Until(s, i + 1, cs)
(* The position of the brace that closes the ones open at i, 0 if none does. *)
Close(s, i, open) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) = "}" THEN IF open = 1 THEN i ELSE Close(s, i + 1, open - 1)
    ELSE Close(s, i + 1, IF Ch(s, i) = "{" THEN open + 1 ELSE open)
Split(s, c) == LET i == Until(s, 1, {c}) IN IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + 1), c)

(* A value at position i: [v, next, how], how is ok, unclosed or vague, if a  *)
(* closing brace is followed by something else than a space.                  *)
Value(s, i) ==
    IF i > Len(s) \/ Ch(s, i) # "{" THEN LET j == Until(s, i, {" "}) IN [v |-> SubSeq(s, i, j - 1), next |-> j, how |-> "ok"]
    ELSE LET j == Close(s, i + 1, 1)
         IN  IF j = 0 THEN [v |-> "", next |-> Len(s) + 1, how |-> "unclosed"]
             ELSE [v |-> SubSeq(s, i + 1, j - 1), next |-> j + 1, how |-> IF j < Len(s) /\ Ch(s, j + 1) # " " THEN "vague" ELSE "ok"]

(* [dialects, name, ok]; a name has no braces and is not empty, nor is that   *)
(* of a dialect.                                                              *)
Name(s) ==
    LET i == Until(s, 1, {":"})
        ds == IF i > Len(s) THEN <<>> ELSE Split(SubSeq(s, 1, i - 1), ",")
        n == IF i > Len(s) THEN s ELSE From(s, i + 1)
    IN  [dialects |-> ds, name |-> n,
         ok |-> n # "" /\ ~Has(n, ":") /\ ~Has(s, "{") /\ ~Has(s, "}") /\ \A k \in DOMAIN ds : ds[k] # ""]

(* [how, ms]; what follows something vague or unclosed is not looked at. *)
RECURSIVE Tag(_, _)
Tag(s, from) ==
    LET i == Skip(s, from) IN
    IF i > Len(s) THEN [how |-> "ok", ms |-> <<>>]
    ELSE LET j == Until(s, i, {" ", "="})
             n == Name(SubSeq(s, i, j - 1))
             v == IF j <= Len(s) /\ Ch(s, j) = "=" THEN Value(s, j + 1) ELSE [v |-> "", next |-> j, how |-> "ok"]
         IN  IF ~n.ok THEN [how |-> "vague", ms |-> <<>>]
             ELSE IF v.how # "ok" THEN [how |-> v.how, ms |-> <<>>]
             ELSE LET rest == Tag(s, v.next)
                  IN  [how |-> rest.how, ms |-> <<[name |-> n.name, dialects |-> n.dialects, raw |-> v.v]>> \o rest.ms]

(* What the value of a modifier means. *)
RECURSIVE Deep(_)
Inner(raw) == LET v == Value(raw, Skip(raw, 1)) IN [value |-> v.v, how |-> v.how, tag |-> IF v.how = "ok" THEN Tag(raw, v.next) ELSE [how |-> v.how, ms |-> <<>>]]
Deep(ms) == [k \in DOMAIN ms |-> LET x == Inner(ms[k].raw) IN [name |-> ms[k].name, dialects |-> ms[k].dialects, value |-> x.value, subs |-> Deep(x.tag.ms)]]
RECURSIVE Clear(_)
Clear(ms) == \A k \in DOMAIN ms : LET x == Inner(ms[k].raw) IN x.how = "ok" /\ x.tag.how = "ok" /\ Clear(x.tag.ms)

(* A missing value in front of submodifiers is written as a dot. *)
RECURSIVE Dots(_)
Dots(d) == [k \in DOMAIN d |-> [name |-> d[k].name, dialects |-> d[k].dialects,
    value |-> IF d[k].value = "" /\ d[k].subs # <<>> THEN "." ELSE d[k].value, subs |-> Dots(d[k].subs)]]
(* Values whose braces do not match cannot be put into braces. *)
Even(v) == IF Has(v, "{") \/ Has(v, "}") THEN Close(v \o "}", 1, 1) = Len(v) + 1 ELSE TRUE
RECURSIVE Writable(_)
Writable(d) == \A k \in DOMAIN d : Even(d[k].value) /\ Writable(d[k].subs)

(* A modifier without dialects applies to all of them. *)
Applies(m, d) == m.dialects = <<>> \/ \E k \in DOMAIN m.dialects : m.dialects[k] = d
=============================================================================
