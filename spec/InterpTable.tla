----------------------------- MODULE InterpTable -----------------------------
(* Every strictly monotone grid of at most N of the values 0, 3, .., 3(V-1),   *)
(* every integer target.                                                       *)
EXTENDS Interpolate
CONSTANTS N, V
VARIABLES g, t
Init == g \in {h \in UNION {[1..n -> {3 * v : v \in 0..(V - 1)}] : n \in 1..N} : Strict(h)} /\ t = 0
Next == t < 3 * (V - 1) /\ t' = t + 1 /\ g' = g
Inv == InterpLaws(g, t) /\ PrintT("@@" \o ToJson([g |-> g, t |-> t] @@ Interp(g, t)))
=============================================================================
