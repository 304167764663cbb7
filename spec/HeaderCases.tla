----------------------------- MODULE HeaderCases -----------------------------
(* Judge generated sources {"defs": .., "calls": .., "arrays": ..}.            *)
EXTENDS Headers, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Judge(c) == [constants |-> Constants(c.defs), parameters |-> Parameters(c.calls, c.arrays)]
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
