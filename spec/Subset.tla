------------------------------- MODULE Subset -------------------------------
(* Dumping a subset of a database. A node is a row, <<table, index>>. A row   *)
(* refers to the rows of another table whose referenced columns equal its     *)
(* foreign key columns, NULL equals nothing. The subset holds the selected    *)
(* rows and whatever they refer to; an extended subset starts from the        *)
(* selected rows and the rows that refer to them.                             *)
EXTENDS Naturals, Sequences, FiniteSets

Null == "~"
None == [e |-> "none"]

Nodes(T) == UNION {{<<t, i>> : i \in DOMAIN T[t].rows} : t \in DOMAIN T}
Row(T, x) == T[x[1]].rows[x[2]]
Matches(f, a, b) == \A n \in DOMAIN f.cols : a[f.cols[n]] # Null /\ a[f.cols[n]] = b[f.rc[n]]
(* The rows x refers to, and the rows that refer to x. *)
Up(T, x) == UNION {{y \in {<<T[x[1]].fk[n].rt, j>> : j \in DOMAIN T[T[x[1]].fk[n].rt].rows} : Matches(T[x[1]].fk[n], Row(T, x), Row(T, y))} : n \in DOMAIN T[x[1]].fk}
Refers(T) == {e \in Nodes(T) \X Nodes(T) : e[2] \in Up(T, e[1])}

RECURSIVE Closure(_, _)
Closure(R, X) == LET Y == X \cup {e[2] : e \in {e \in R : e[1] \in X}} IN IF Y = X THEN X ELSE Closure(R, Y)
Back(R) == {<<e[2], e[1]>> : e \in R}

Selects(qu, r) ==
    CASE qu.op = "all" -> TRUE
      [] qu.op = "none" -> FALSE
      [] qu.op = "eq" -> r[qu.c] = qu.v
      [] qu.op = "ne" -> r[qu.c] # qu.v /\ r[qu.c] # Null
      [] OTHER -> r[qu.c] = Null
Selected(T, qu) == {x \in Nodes(T) : x[1] = qu.t /\ Selects(qu, Row(T, x))}

(* Every row that belongs to the subset. *)
Whole(T, R, qu) == Closure(R, IF qu.ext THEN Closure(Back(R), Selected(T, qu)) ELSE Selected(T, qu))

(* The rows reached without coming back to a table. *)
RECURSIVE Climb(_, _, _), Descend(_, _, _)
Climb(R, x, seen) ==
    {x} \cup UNION {Climb(R, y, seen \cup {y[1]}) : y \in {e[2] : e \in {e \in R : e[1] = x /\ e[2][1] \notin seen}}}
Descend(R, x, seen) ==
    Climb(R, x, seen) \cup UNION {Descend(R, y, seen \cup {y[1]}) : y \in {e[1] : e \in {e \in R : e[2] = x /\ e[1][1] \notin seen}}}
Straight(T, R, qu) == UNION {IF qu.ext THEN Descend(R, x, {x[1]}) ELSE Climb(R, x, {x[1]}) : x \in Selected(T, qu)}

(* Whether the tables that can be joined to t, out of those with a foreign    *)
(* key in L, are joined in one way only.                                      *)
Links(T, out) == {l \in UNION {{<<t, n>> : n \in DOMAIN T[t].fk} : t \in DOMAIN T \ out} : T[l[1]].fk[l[2]].rt \notin out}
To(T, l) == T[l[1]].fk[l[2]].rt
Joined(T, L, t) == Closure({<<l[1], To(T, l)>> : l \in L} \cup {<<To(T, l), l[1]>> : l \in L}, {t})
Branching(T, out, t) ==
    LET L == Links(T, out) IN \A l \in {l \in L : l[1] \in Joined(T, L, t)} : To(T, l) # l[1] /\ To(T, l) \notin Joined(T, L \ {l}, l[1])
(* What must be dumped in any case: of an extended subset over tables joined  *)
(* in more than one way, the selected rows and those that refer to them.      *)
Sure(T, R, out, qu) ==
    IF ~qu.ext \/ Branching(T, out, qu.t) THEN Straight(T, R, qu)
    ELSE LET sel == Selected(T, qu) IN sel \cup {e[1] : e \in {e \in R : e[2] \in sel /\ e[1][1] # qu.t}}

(* Rows of tables without a primary key, or left out, are not dumped. *)
Dumpable(S, x) == S.tabs[x[1]].pk # <<>> /\ x[1] \notin S.exclude
Range(s) == {s[i] : i \in DOMAIN s}
Known(S, qu) == qu.t \notin S.exclude /\ S.tabs[qu.t].pk # <<>>
(* The rest of the database as if the tables left out were not there. *)
Kept(S) == {e \in Refers(S.tabs) : e[1][1] \notin S.exclude /\ e[2][1] \notin S.exclude}

Count(s, r) == Cardinality({i \in DOMAIN s : s[i] = r})
Fresh(S, X) == {x \in X : Dumpable(S, x)}
Dumped(S, ev, x) == \E i \in DOMAIN ev.rows[x[1]] : ev.rows[x[1]][i] = Row(S.tabs, x)

Step(S, ev) == IF ev.e = "init" THEN [e |-> "s", tabs |-> ev.tabs, queries |-> Range(ev.queries), exclude |-> Range(ev.exclude)] ELSE S

Rows(S, ev) ==
    LET R == Kept(S)
        sel == UNION {Selected(S.tabs, qu) : qu \in S.queries}
        whole == UNION {Whole(S.tabs, R, qu) : qu \in S.queries}
        sure == UNION {Sure(S.tabs, R, S.exclude, qu) : qu \in S.queries}
        plain == UNION {Whole(S.tabs, R, qu) : qu \in {qu \in S.queries : ~qu.ext}}
        missing == {x \in Fresh(S, whole) : ~Dumped(S, ev, x)}
    IN  (IF missing \cap sel # {} THEN {<<"C16", "a selected row is missing">>} ELSE {})
        \cup (IF (missing \cap sure) \ sel # {} THEN {<<"C16", "a row that is referred to or refers to a selected one is missing">>} ELSE {})
        \cup (IF (missing \ sure) \cap plain # {} THEN {<<"C16", "a row reached only by coming back to a table is missing">>} ELSE {})
        \cup (IF (missing \ sure) \ plain # {} THEN {<<"C16", "a row of an extended subset over tables joined in several ways is missing">>} ELSE {})
        \cup UNION {{<<"C16", "a row that does not belong to the subset">> : i \in {i \in DOMAIN ev.rows[t] : ~\E x \in Fresh(S, whole) : x[1] = t /\ Row(S.tabs, x) = ev.rows[t][i]}} : t \in DOMAIN ev.rows}
        \cup UNION {{<<"C16", "a row is dumped more than once">> : i \in {i \in DOMAIN ev.rows[t] : S.tabs[t].pk # <<>> /\ Count(ev.rows[t], ev.rows[t][i]) > 1}} : t \in DOMAIN ev.rows}

Broken(S, ev) ==
    CASE ev.e = "dump" ->
            IF ev.crashed THEN {<<"C16", "dump crashes">>}
            ELSE IF \E qu \in S.queries : qu.bad \/ ~Known(S, qu)
                 THEN IF ev.err = "" THEN {<<"C16", "a query that cannot be understood is not reported">>} ELSE {}
            ELSE IF ev.err # "" THEN IF ev.fault = "" THEN {<<"C16", "dump fails without cause">>} ELSE {}
            ELSE IF ev.bad # "" THEN {<<"C16", "a dumped file cannot be read">>}
            ELSE Rows(S, ev)
      [] OTHER -> {}
=============================================================================
