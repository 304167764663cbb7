----------------------------- MODULE ParamCases -----------------------------
(* Judge generated histories over generated worlds:                            *)
(* {"world": .., "start": {"src": .., "cfg": ..}, "steps": [..]}.               *)
EXTENDS Params, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
RECURSIVE Run(_, _, _)
Run(w, st, steps) ==
  IF steps = <<>> THEN <<>>
  ELSE LET r == Do(w, st, Head(steps)) IN <<r.res>> \o Run(w, r.st, Tail(steps))
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i, out |-> Run(Cases[i].world, Cases[i].start, Cases[i].steps)]))
=============================================================================
