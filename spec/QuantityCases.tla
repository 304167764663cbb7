---------------------------- MODULE QuantityCases ----------------------------
(* Judge programs {"init": registers, "ops": operations} -> one outcome per    *)
(* operation.                                                                  *)
EXTENDS Quantities
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i, out |-> Run(Cases[i])]))
=============================================================================
