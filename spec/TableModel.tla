----------------------------- MODULE TableModel -----------------------------
(* Every table of at most N rows over two columns and two values (a row may   *)
(* lack a column), every request of at most two columns, both search modes.    *)
EXTENDS Lookup
CONSTANT N
Row(x, y) == (IF x = 0 THEN <<>> ELSE <<<<"a", x>>>>) \o (IF y = 0 THEN <<>> ELSE <<<<"b", y>>>>)
Rows == {Row(x, y) : x \in 0..2, y \in 0..2}
Pairs == {<<c, v>> : c \in {"a", "b"}, v \in 1..3} \cup {<<"z", 1>>}
Requests == {<<p>> : p \in Pairs} \cup {<<p[1], p[2]>> : p \in {q \in Pairs \X Pairs : q[1][1] # q[2][1]}}
VARIABLE rows
Init == rows \in UNION {[1..n -> Rows] : n \in 1..N}
Next == UNCHANGED rows
Sound == \A ps \in Requests : \A s \in {TRUE, FALSE} : LET r == Request(rows, ps, s) IN
  /\ r > 0 => \E k \in 1..Len(ps) : Val(rows[r], ps[k][1]) = ps[k][2]
  /\ (s /\ r > 0) => r \in {i \in 1..Len(rows) : \A k \in 1..Len(ps) : Val(rows[i], ps[k][1]) = ps[k][2]}
  /\ (~s /\ r = 0 /\ Request(rows, ps, TRUE) > 0) => FALSE     \* iterative search finds what strict search finds
Emit == PrintT("@@" \o ToJson([rows |-> rows,
   req |-> {[ps |-> ps, t |-> Request(rows, ps, TRUE), f |-> Request(rows, ps, FALSE)] : ps \in Requests},
   find |-> [v \in 1..3 |-> Find(rows, v)], common |-> Common(rows)]))
Inv == Sound /\ Emit
=============================================================================
