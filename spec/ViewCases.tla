----------------------------- MODULE ViewCases -----------------------------
(* Cases: {"k": "file", "vars": [{name, unit, dims}], "axes": [{name, size}],  *)
(*         "probe": names}                                                     *)
(*        {"k": "search", "dirs": [[names]], "name": n}                        *)
(*        {"k": "template", "names": [..], "have": [..]}                       *)
EXTENDS Views, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Judge(c) ==
  CASE c.k = "file" ->
      [plain |-> Plain(c.vars) /\ Plain(c.axes),
       vars |-> [k \in 1..Len(c.probe) |-> Shown(c.vars, c.probe[k])],
       axes |-> [k \in 1..Len(c.probe) |-> Shown(c.axes, c.probe[k])],
       tens |-> [k \in 1..Len(c.vars) |-> IF Measured(c.vars[k].unit) THEN Tens[c.vars[k].unit] ELSE [mks |-> "none"]],
       groups |-> [k \in 1..Len(c.vars) |-> AliasesOf(c.vars[k].name)],
       axisgroups |-> [k \in 1..Len(c.axes) |-> AliasesOf(c.axes[k].name)]]
    [] c.k = "search" -> [at |-> FirstWith([k \in 1..Len(c.dirs) |-> SeqSet(c.dirs[k])], c.name)]
    [] c.k = "template" -> [at |-> FirstOf(c.names, SeqSet(c.have))]
    [] c.k = "known" -> [known |-> [g \in 1..Len(Known) |-> Known[g]]]
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
