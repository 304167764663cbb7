------------------------------ MODULE GridCases ------------------------------
(* Judge recorded searches {"g": values, "t": target}.                         *)
EXTENDS GridSearch, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Answer(Cases[i].g, Cases[i].t)))
=============================================================================
