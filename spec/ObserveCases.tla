---------------------------- MODULE ObserveCases ----------------------------
(* Evaluate observation requests {"d": dataset, "r": request, "os": positions} *)
EXTENDS Observe, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Judge(c) == Observation(c.d, c.r, c.os)
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
