---------------------------- MODULE SpeciesCases ----------------------------
(* Judge {"m": mass in millionths, "q": charge} -> possible symbols.           *)
EXTENDS Species, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i, s |-> Symbols(Cases[i].m, Cases[i].q)]))
=============================================================================
