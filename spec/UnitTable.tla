----------------------------- MODULE UnitTable -----------------------------
(* Every prefixed named unit: one state each, and the laws the table obeys.   *)
EXTENDS Units
VARIABLES p, u
Init == p = 1 /\ u = 1
Next == \/ u < Len(UnitList) /\ u' = u + 1 /\ p' = p
        \/ p < Len(PrefixList) /\ p' = p + 1 /\ u' = 1
T == <<PrefixList[p].symbol, UnitList[u].symbol, 1, 1>>
(* going through any unit of the same quantity gives the same factor *)
Coherent == \A v \in 1..Len(UnitList) : UnitList[v].quantity = UnitList[u].quantity =>
  LET a == <<T>> b == <<<<"", UnitList[v].symbol, 1, 1>>>> c == <<<<"k", UnitList[v].symbol, 1, 1>>>> IN
  /\ Verdict(a, b, FALSE) = "yes" /\ Verdict(b, a, FALSE) = "yes"
  /\ MMul(Factor(a, b, FALSE), Factor(b, a, FALSE)) = MOne
  /\ MMul(Factor(a, c, FALSE), Factor(c, b, FALSE)) = Factor(a, b, FALSE)
  /\ MDiv(Size(a, "mks"), Size(b, "mks")) = MDiv(Size(a, "cgs"), Size(b, "cgs"))
Emit == PrintT("@@" \o ToJson([prefix |-> PrefixList[p], unit |-> UnitList[u], ten |-> PrefixList[p].ten]))
Inv == Coherent /\ Emit
=============================================================================
