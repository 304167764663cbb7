---------------------------- MODULE MeasureCases ----------------------------
EXTENDS Measuring, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Measured(Cases[i])))
=============================================================================
