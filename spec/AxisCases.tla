------------------------------ MODULE AxisCases ------------------------------
(* Judge selections {"g": axis values, "x": selection}.                        *)
EXTENDS Axes, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i, r |-> Chosen(Cases[i].g, Cases[i].x)]))
=============================================================================
