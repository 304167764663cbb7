---------------------------- MODULE ArgumentCases ----------------------------
(* Tables that compare the arguments of several configuration files.           *)
(* A case is {"names": documented parameters, "files": [[{name, value}]],      *)
(* "mode": "show" or "diff"}; a value is a number identifying what was written. *)
(* Every parameter has one row per file: the value in force there if the file  *)
(* gives it (the last one it gives), otherwise nothing (0).  "show" lists every *)
(* documented parameter and "diff" those with different rows.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Gives(f, n) == {k \in 1..Len(f) : f[k].name = n}
Cell(f, n) == LET S == Gives(f, n) IN
  IF S = {} THEN 0 ELSE f[CHOOSE k \in S : \A j \in S : j <= k].value
Row(files, n) == [k \in 1..Len(files) |-> Cell(files[k], n)]
Same(row) == \A k \in 1..Len(row) : row[k] = row[1]
Listed(c) == {c.names[k] : k \in {j \in 1..Len(c.names) : c.mode = "show" \/ ~Same(Row(c.files, c.names[j]))}}
Table(c) == {[name |-> n, row |-> Row(c.files, n)] : n \in Listed(c)}
Laws(c) ==
  /\ \A r \in Table([c EXCEPT !.mode = "diff"]) : r \in Table([c EXCEPT !.mode = "show"])
  /\ Len(c.files) = 1 => Table([c EXCEPT !.mode = "diff"]) = {}
  /\ Listed([c EXCEPT !.files = c.files \o <<c.files[1]>>]) = Listed(c)
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == /\ Assert(Laws(Cases[i]), "laws of comparison tables")
        /\ PrintT("@@" \o ToJson([i |-> i, table |-> Table(Cases[i])]))
=============================================================================
