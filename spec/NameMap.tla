------------------------------ MODULE NameMap ------------------------------
(* A name map built from canonical names and alias definitions sends every    *)
(* alias to its canonical name and nothing else anywhere.  One case per       *)
(* assignment of aliases to (at most one) canonical name.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Canonical, Aliases, None
VARIABLE f
Init == f \in [Aliases -> Canonical \cup {None}]
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
Lookup == [k \in Canonical \cup {a \in Aliases : f[a] # None} |->
             IF k \in Canonical THEN k ELSE f[k]]
AliasesOf(n) == {k \in DOMAIN Lookup : Lookup[k] = n}
Total == /\ \A n \in Canonical : n \in AliasesOf(n)
         /\ \A m, n \in Canonical : m # n => AliasesOf(m) \cap AliasesOf(n) = {}
Emit == PrintT("@@" \o ToJson([f |-> f, lookup |-> Lookup,
                               inverse |-> [n \in Canonical |-> AliasesOf(n)]]))
Inv == Total /\ Emit
=============================================================================
