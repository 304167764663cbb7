---------------------------- MODULE SpeciesTable ----------------------------
(* One state per element and charge; then one per constant.                    *)
EXTENDS Species
CONSTANT Q
VARIABLES i, q
Init == i = 1 /\ q = -Q
Next == \/ q < Q /\ q' = q + 1 /\ i' = i
        \/ q = Q /\ i < N /\ i' = i + 1 /\ q' = -Q
Emit == PrintT("@@" \o ToJson([element |-> ElementList[i], q |-> q, symbol |-> ElementList[i].symbol \o Signs(q),
                               back |-> Symbols(ElementList[i].mass, q)]))
EmitConstants == (i = 1 /\ q = -Q) => \A k \in 1..Len(ConstantList) : PrintT("@@" \o ToJson([constant |-> ConstantList[k]]))
Inv == RoundTrip(i) /\ ((i = 1 /\ q = -Q) => Distinct) /\ Emit /\ EmitConstants
=============================================================================
