------------------------------ MODULE GridTable ------------------------------
(* Every sequence over 0, 2, .., 2(V-1) of length at most N, every integer    *)
(* target from -1 to 2V-1 (odd ones fall between or outside the values).       *)
EXTENDS GridSearch
CONSTANTS N, V
VARIABLES g, t
Init == g \in UNION {[1..n -> {2 * v : v \in 0..(V - 1)}] : n \in 1..N} /\ t = -1
Next == t < 2 * V - 1 /\ t' = t + 1 /\ g' = g
Inv == Laws(g, t) /\ PrintT("@@" \o ToJson([g |-> g, t |-> t] @@ Answer(g, t)))
=============================================================================
