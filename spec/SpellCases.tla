----------------------------- MODULE SpellCases -----------------------------
(* Judge recorded checks {"v": vocabulary, "w": name}.                         *)
EXTENDS Spelling, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Set(s) == {s[k] : k \in 1..Len(s)}
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i, res |-> Suggest(Set(Cases[i].v), Cases[i].w)]))
=============================================================================
