----------------------------- MODULE InterpCases -----------------------------
(* Judge recorded interpolations {"lanes": [{"g": grid, "v": [columns]}...],   *)
(* "ts": targets} -> value[lane][target][column].                              *)
EXTENDS Interpolate, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Judge(c) == [ok |-> \A l \in 1..Len(c.lanes), k \in 1..Len(c.ts) : Interp(c.lanes[l].g, c.ts[k]).ok,
             out |-> [l \in 1..Len(c.lanes) |-> [k \in 1..Len(c.ts) |->
               LET x == Interp(c.lanes[l].g, c.ts[k])
               IN [j \in 1..Len(c.lanes[l].v) |-> Blend(x, c.lanes[l].v[j])]]]]
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
