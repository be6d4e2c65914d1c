------------------------------- MODULE DumpMC -------------------------------
(* The text a dump is written as. Rows are written one after the other as     *)
(* lines of fields, reading them may fail at any row, and a reader takes the  *)
(* text apart character by character. What is read must be what was written,  *)
(* for every row of short fields over the characters that matter, with the    *)
(* exceptions the specification of dumps names.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, MaxCols, MaxRows, Quoting

Chars == {"a", ",", "\"", "\n", "\r"}
NullMark == "\\N"
Null == "~"
Strings(n) == UNION {[1..k -> Chars] : k \in 0..n}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
Fields == {Join(s) : s \in Strings(MaxLen)} \cup {Null, "\\N "}
Ch(s, i) == SubSeq(s, i, i)

(* Writing. *)
Text(v) == IF v = Null THEN NullMark ELSE v
Needs(f) == \E i \in 1..Len(f) : Ch(f, i) \in {",", "\"", "\n", "\r"}
RECURSIVE Double(_)
Double(f) == IF f = "" THEN "" ELSE (IF Ch(f, 1) = "\"" THEN "\"\"" ELSE Ch(f, 1)) \o Double(SubSeq(f, 2, Len(f)))
Put(f) == IF Needs(f) THEN "\"" \o Double(f) \o "\"" ELSE f
RECURSIVE Fold(_)
Fold(r) == IF Len(r) = 1 THEN Put(Text(r[1])) ELSE Put(Text(r[1])) \o "," \o Fold(Tail(r))
(* A row that is one empty field must not become a blank line. *)
Line(r) == IF Quoting /\ r = <<"">> THEN "\"\"\n" ELSE Fold(r) \o "\n"

VARIABLES rows, failAt, at, out, err, mode, rec, fld, got, pos, pc
vars == <<rows, failAt, at, out, err, mode, rec, fld, got, pos, pc>>

Init == \E n \in 1..MaxCols, m \in 0..MaxRows :
    /\ rows \in [1..m -> [1..n -> Fields]]
    /\ failAt \in 0..m
    /\ at = 0 /\ out = "" /\ err = FALSE /\ mode = "start" /\ rec = <<>> /\ fld = "" /\ got = <<>> /\ pos = 1 /\ pc = "write"

Write ==
    /\ pc = "write" /\ at < Len(rows)
    /\ IF at + 1 = failAt THEN err' = TRUE /\ pc' = "failed" /\ UNCHANGED <<at, out>>
       ELSE at' = at + 1 /\ out' = out \o Line(rows[at + 1]) /\ UNCHANGED <<err, pc>>
    /\ UNCHANGED <<rows, failAt, mode, rec, fld, got, pos>>
Close == pc = "write" /\ at = Len(rows) /\ pc' = "read" /\ UNCHANGED <<rows, failAt, at, out, err, mode, rec, fld, got, pos>>

(* Reading, one character at a time. start: at the beginning of a line;      *)
(* plain, quoted: within a field; closed: after a quote in a quoted field.   *)
C == Ch(out, pos)
EndField == rec' = Append(rec, fld) /\ fld' = ""
EndRow == got' = Append(got, Append(rec, fld)) /\ rec' = <<>> /\ fld' = "" /\ mode' = "start"
Read ==
    /\ pc = "read" /\ pos <= Len(out)
    /\ pos' = pos + 1
    /\ CASE mode = "start" /\ C = "\n" /\ rec = <<>> -> UNCHANGED <<mode, rec, fld, got>>
         [] mode \in {"start", "field"} /\ C = "\"" -> mode' = "quoted" /\ UNCHANGED <<rec, fld, got>>
         [] mode = "quoted" /\ C = "\"" -> mode' = "closed" /\ UNCHANGED <<rec, fld, got>>
         [] mode = "quoted" /\ C = "\n" ->
                \* a carriage return before the newline is dropped
                /\ fld' = (IF fld # "" /\ Ch(fld, Len(fld)) = "\r" THEN SubSeq(fld, 1, Len(fld) - 1) ELSE fld) \o "\n"
                /\ UNCHANGED <<mode, rec, got>>
         [] mode = "quoted" -> fld' = fld \o C /\ UNCHANGED <<mode, rec, got>>
         [] mode = "closed" /\ C = "\"" -> fld' = fld \o "\"" /\ mode' = "quoted" /\ UNCHANGED <<rec, got>>
         [] C = "," -> EndField /\ mode' = "field" /\ UNCHANGED got
         [] C = "\n" -> EndRow
         [] OTHER -> fld' = fld \o C /\ mode' = "plain" /\ UNCHANGED <<rec, got>>
    /\ UNCHANGED <<rows, failAt, at, out, err, pc>>
Done == pc = "read" /\ pos > Len(out) /\ pc' = "done" /\ UNCHANGED <<rows, failAt, at, out, err, mode, rec, fld, got, pos>>
Next == Write \/ Close \/ Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Value(f) == IF f = NullMark THEN Null ELSE f
Loaded == [i \in 1..Len(got) |-> [j \in 1..Len(got[i]) |-> Value(got[i][j])]]
CrLf(f) == \E i \in 1..Len(f) : i < Len(f) /\ SubSeq(f, i, i + 1) = "\r\n"
Excepted == \E i \in 1..Len(rows) : \E j \in 1..Len(rows[i]) : CrLf(rows[i][j])

SameRows == pc = "done" => Excepted \/ Loaded = rows
Reported == (pc = "failed" => err) /\ (pc = "done" => failAt = 0)
(* Even the exception keeps the number of rows and of fields. *)
SameShape == pc = "done" => Len(got) = Len(rows) /\ \A i \in 1..Len(rows) : Len(got[i]) = Len(rows[i])
Ends == <>(pc \in {"done", "failed"})
=============================================================================
