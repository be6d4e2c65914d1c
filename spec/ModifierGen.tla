---------------------------- MODULE ModifierGen -----------------------------
(* Every list of up to two modifiers of ModifierMC, with the spaces that may *)
(* be put between and around the parts: one scenario per first modifier.     *)
EXTENDS ModifierMC, Json
VARIABLE g
gvars == <<g, s, lst, pos, st, nm, vl, open, out, res>>

(* Spaces inside the braces of a value are insignificant when it is parsed. *)
Forms(m) == {Format1(m)} \cup (IF m.raw = "" THEN {Format1(m) \o "="} ELSE
    {(IF m.dialects = <<>> THEN "" ELSE Fold(m.dialects, ",") \o ":") \o m.name \o "={" \o p \o m.raw \o q \o "}" : p \in {"", " "}, q \in {"", "  "}})
Tags(m) == Forms(m) \cup {p \o f \o q : p \in {" ", "  "}, f \in {Format1(m)}, q \in {"", " "}}
           \cup {f \o " " \o q \o f2 : f \in Forms(m), q \in {"", " "}, f2 \in {Format1(n) : n \in Mods}}
GInit == g \in Mods /\ s = "" /\ lst = <<>> /\ pos = 1 /\ st = "" /\ nm = "" /\ vl = "" /\ open = 0 /\ out = <<>> /\ res = ""
GNext == FALSE /\ UNCHANGED gvars
Write == PrintT("SCENARIO " \o ToJson([id |-> "", tags |-> Tags(g)]))
=============================================================================
