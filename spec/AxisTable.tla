------------------------------ MODULE AxisTable ------------------------------
(* Every selection of a menu on every increasing axis of at most 3 points.     *)
EXTENDS Axes
CONSTANT Top
Opt == {<<>>, <<-4>>, <<-2>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<5>>}
Menu == {[k |-> "all"]}
  \cup {[k |-> "at", i |-> s] : s \in UNION {[1..n -> -4..3] : n \in 1..2}}
  \cup {[k |-> "slice", a |-> a, b |-> b, s |-> s] : a \in Opt, b \in Opt, s \in {<<>>, <<-2>>, <<-1>>, <<1>>, <<2>>}}
  \cup {[k |-> "val", t |-> s] : s \in UNION {[1..n -> 0..(Top + 1)] : n \in 1..2}}
Grids == {g \in UNION {[1..n -> 1..Top] : n \in 1..3} : \A j \in 1..(Len(g) - 1) : g[j] < g[j + 1]}
VARIABLES g, x
Init == g \in Grids /\ x \in Menu
Next == UNCHANGED <<g, x>>
Emit == PrintT("@@" \o ToJson([g |-> g, x |-> x, r |-> Chosen(g, x)]))
Inv == AxisLaws(g, x) /\ Emit
=============================================================================
