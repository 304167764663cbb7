----------------------------- MODULE ArrayCases -----------------------------
EXTENDS Arrays, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i, r |-> Run(Cases[i].regs, Cases[i].ops, 1)]))
=============================================================================
