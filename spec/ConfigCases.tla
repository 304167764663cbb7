----------------------------- MODULE ConfigCases -----------------------------
(* Judge pairs of whole files {"a": lines, "b": lines, "marks": characters}.   *)
EXTENDS ConfigText, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Set(s) == {s[k] : k \in 1..Len(s)}
Judge(c) == LET x == Read(c.a, Set(c.marks))
                y == Read(c.b, Set(c.marks)) IN
  [a |-> Show(x), b |-> Show(y), laws |-> FileLaws(x.map, y.map)]
  @@ ShowCompare(x.map, y.map)
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
