----------------------------- MODULE GraphModel -----------------------------
(* Every history of connections among K nodes.                                 *)
EXTENDS Lookup
CONSTANTS K
VARIABLES c, act
Weights == {<<2, 1>>, <<1, 4>>, RZero}
Init == c = {} /\ act = [o |-> "start"]
Next == \E a, b \in 1..K, w \in Weights : c' = Connect(c, a, b, w) /\ act' = [o |-> "add", a |-> a, b |-> b, w |-> w]
View == c
Inv == Mutual(c)
Emit == PrintT("@@" \o ToJson([s |-> c, a |-> [o |-> act', res |-> 0], t |-> c']))
=============================================================================
