---------------------------- MODULE PackageCases ----------------------------
(* Values of the documented parameters under a user's configuration:           *)
(* {"user": rows, "look": names}.                                              *)
EXTENDS Params, ParamTable, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Sorted == << "MAS_TIME_NORM", "TAU", "AU", "C", "PI", "MP", "BADVALUE", "VERYSMALL", "RSUN", "RSAU" >>
Pkg == [params |-> [k \in 1..Len(Table) |-> Table[k] @@ [key |-> Table[k].name]],
        consts |-> [k \in 1..Len(Sorted) |-> [name |-> Sorted[k], def |-> Constants[Sorted[k]]]]]
Judge(c) ==
  [values |-> [k \in 1..Len(c.look) |->
     LET n == c.look[k] IN
       IF Has(Local, n) THEN [is |-> "value", v |-> Row(Local, n).default, type |-> "float"]
       ELSE IF ~Has(Table, n) THEN [is |-> "unknown"]
       ELSE LET v == Resolve(Pkg, c.user, n)
            IN IF v = Bad THEN [is |-> "error"] ELSE [is |-> "value", v |-> v, type |-> Row(Table, n).type]]]
ASSUME PrintT("@@" \o ToJson([i |-> 0, table |-> Table, local |-> Local]))
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
