----------------------------- MODULE ModifierMC -----------------------------
(* The parser as a machine that reads a tag character by character, for every *)
(* string over the significant characters up to a length, and the formatter,  *)
(* for every list of up to two modifiers over a few names, dialects and       *)
(* nested values. Both must agree with the specification of the language.     *)
EXTENDS Modifier, FiniteSets, TLC

CONSTANTS MaxLen, Level   \* Level: how deep values nest

Chars == {"a", " ", "=", "{", "}", ":", ","}
RECURSIVE Join(_)
Join(x) == IF x = <<>> THEN "" ELSE Head(x) \o Join(Tail(x))

(* Formatting. *)
RECURSIVE Fold(_, _)
Fold(x, sep) == IF x = <<>> THEN "" ELSE IF Len(x) = 1 THEN x[1] ELSE x[1] \o sep \o Fold(Tail(x), sep)
Put(v) == IF Has(v, " ") \/ Ch(v, 1) = "{" THEN "{" \o v \o "}" ELSE v
Format1(m) == (IF m.dialects = <<>> THEN "" ELSE Fold(m.dialects, ",") \o ":") \o m.name \o (IF m.raw = "" THEN "" ELSE "=" \o Put(m.raw))
Format(ms) == Fold([k \in DOMAIN ms |-> Format1(ms[k])], " ")

Raws[n \in 0..Level] ==
    IF n = 0 THEN {"", "v", "v w"}
    ELSE Raws[n - 1] \cup {"{" \o r \o "}" : r \in Raws[n - 1]} \cup {"v x=" \o Put(r) : r \in Raws[n - 1] \ {""}}
Mods == [name : {"a", "b"}, dialects : {<<>>, <<"x">>, <<"x", "y">>}, raw : Raws[Level]]
Lists == {<<m>> : m \in Mods} \cup {<<m, n>> : m \in Mods, n \in Mods}

VARIABLES s,                 \* the tag
          lst,               \* the modifiers it was formatted from, or <<>>
          pos, st, nm, vl, open, out, res
vars == <<s, lst, pos, st, nm, vl, open, out, res>>

Init ==
    /\ \/ s \in {Join(x) : x \in UNION {[1..n -> Chars] : n \in 0..MaxLen}} /\ lst = <<>>
       \/ lst \in Lists /\ s = Format(lst)
    /\ pos = 1 /\ st = "gap" /\ nm = "" /\ vl = "" /\ open = 0 /\ out = <<>> /\ res = "run"

C == Ch(s, pos)
More == res = "run" /\ pos <= Len(s)
Emit(name, value) ==
    IF Name(name).ok THEN out' = Append(out, [name |-> Name(name).name, dialects |-> Name(name).dialects, raw |-> value]) /\ res' = res
    ELSE out' = out /\ res' = "vague"
Read ==
    /\ More /\ pos' = pos + 1
    /\ CASE st = "gap" /\ C = " " -> UNCHANGED <<st, nm, vl, open, out, res>>
         [] st \in {"gap", "name"} /\ C = "=" ->
                IF Name(nm).ok THEN st' = "value" /\ UNCHANGED <<nm, vl, open, out, res>> ELSE res' = "vague" /\ UNCHANGED <<st, nm, vl, open, out>>
         [] st = "name" /\ C = " " -> Emit(nm, "") /\ st' = "gap" /\ nm' = "" /\ UNCHANGED <<vl, open>>
         [] st \in {"gap", "name"} -> st' = "name" /\ nm' = nm \o C /\ UNCHANGED <<vl, open, out, res>>
         [] st = "value" /\ C = "{" -> st' = "quoted" /\ open' = 1 /\ UNCHANGED <<nm, vl, out, res>>
         [] st \in {"value", "plain", "closed"} /\ C = " " -> Emit(nm, vl) /\ st' = "gap" /\ nm' = "" /\ vl' = "" /\ UNCHANGED open
         [] st = "closed" -> res' = "vague" /\ UNCHANGED <<st, nm, vl, open, out>>
         [] st = "quoted" /\ C = "}" /\ open = 1 -> st' = "closed" /\ open' = 0 /\ UNCHANGED <<nm, vl, out, res>>
         [] st = "quoted" -> vl' = vl \o C /\ open' = (IF C = "{" THEN open + 1 ELSE IF C = "}" THEN open - 1 ELSE open) /\ UNCHANGED <<st, nm, out, res>>
         [] OTHER -> st' = "plain" /\ vl' = vl \o C /\ UNCHANGED <<nm, open, out, res>>
    /\ UNCHANGED <<s, lst>>
End ==
    /\ res = "run" /\ pos > Len(s)
    /\ IF st = "quoted" THEN res' = "unclosed" /\ UNCHANGED out
       ELSE IF st = "gap" THEN res' = "ok" /\ UNCHANGED out
       ELSE IF Name(nm).ok THEN res' = "ok" /\ out' = Append(out, [name |-> Name(nm).name, dialects |-> Name(nm).dialects, raw |-> vl])
       ELSE res' = "vague" /\ UNCHANGED out
    /\ UNCHANGED <<s, lst, pos, st, nm, vl, open>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

T == Tag(s, 1)
Agrees == res # "run" => T.how = res /\ (res = "ok" => Same(out, T.ms))
Level0 == (st = "quoted") = (open > 0)
Returns == res = "ok" /\ lst # <<>> => Same(out, lst)
Parses == lst # <<>> => res \in {"run", "ok"}
(* Extra spaces at either end and between modifiers change nothing. *)
Spaces == res = "ok" => Same(Tag("  " \o s \o " ", 1).ms, T.ms)
Ends == <>(res # "run")
=============================================================================
