------------------------------ MODULE Modifier ------------------------------
(* What the parser and the formatter of struct tags have to do, the language  *)
(* of which is described in Tags.                                             *)
EXTENDS Tags

None == [e |-> "none"]
Step(S, ev) == S
Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]

(* The same string as the value of a modifier. *)
BrokenValue(ev) ==
    LET x == Inner(ev.s)
        how == IF x.how # "ok" THEN x.how ELSE x.tag.how
    IN  CASE how = "unclosed" -> IF ev.rawerr = "" THEN {<<"C18", "an unclosed brace in a value is not rejected">>} ELSE {}
          [] how = "vague" -> {}
          [] OTHER -> IF ev.rawerr # "" THEN {<<"C18", "a well-formed value is rejected">>}
                      ELSE IF ev.rawvalue # x.value \/ ~Same(ev.rawsubs, x.tag.ms) THEN {<<"C18", "a value is parsed into other parts">>} ELSE {}

Broken(S, ev) ==
    LET t == Tag(ev.s, 1)
        clear == t.how = "ok" /\ Clear(t.ms)
    IN  IF ev.crashed THEN {<<"C18", "the parser crashes">>}
        ELSE IF ev.loops THEN {<<"C18", "the parser does not end">>}
        ELSE BrokenValue(ev) \cup
             IF t.how = "unclosed" THEN IF ev.err = "" THEN {<<"C18", "an unclosed brace is not rejected">>} ELSE {}
        ELSE IF t.how = "vague" THEN {}
        ELSE IF ev.err # "" THEN {<<"C18", "a well-formed tag is rejected">>}
        ELSE (IF ~Same(ev.ms, t.ms) THEN {<<"C18", "a tag is parsed into other parts">>} 
                   ELSE IF \E k \in DOMAIN t.ms, j \in DOMAIN ev.dialects : ev.used[k][j] # Applies(t.ms[k], ev.dialects[j])
                   THEN {<<"C18", "a modifier applies to other dialects than it names">>} ELSE {})
             \cup (IF clear /\ (ev.deeperr # "" \/ ~Same(ev.deep, Deep(t.ms))) THEN {<<"C18", "a value is parsed into other parts">>} ELSE {})
             \cup (IF ~Same(ev.again, ev.ms) THEN {<<"C18", "formatting changes the modifiers">>} ELSE {})
             \cup (IF clear /\ ev.deeperr = "" /\ Writable(Deep(t.ms)) /\ ~Same(Dots(ev.deep2), Dots(ev.deep)) THEN {<<"C18", "formatting values and submodifiers changes them">>} ELSE {})
=============================================================================
