-------------------------------- MODULE Axes --------------------------------
(* What an axis answers to a selection.  An axis is a sequence of coordinate   *)
(* values (integers: the harness scales) or, for species, of distinct names.   *)
(* A selection gives positions (0-based) and values, one of each per item, or  *)
(* is refused.  A coordinate value selects a nearest grid point but is itself  *)
(* the value; several grid points may be equally near.                         *)
(*   all            every position                                             *)
(*   at(i)          positions, counted from the end if negative                *)
(*   slice(a,b,s)   positions of a slice; each of a, b, s is <<>> or <<n>>      *)
(*   val(t)         coordinate values                                          *)
(*   name(n)        species names, or positions                                *)
EXTENDS Lookup, GridSearch
InRange(i, n) == -n <= i /\ i < n
Pos(i, n) == IF i < 0 THEN i + n ELSE i
Refused == [ok |-> FALSE]
Found(points, values) == [ok |-> TRUE, points |-> points, values |-> values]
AtPositions(g, p) == Found([k \in 1..Len(p) |-> {p[k]}], [k \in 1..Len(p) |-> g[p[k] + 1]])
Chosen(g, x) ==
  LET n == Len(g) IN
  CASE x.k = "all" -> AtPositions(g, [k \in 1..n |-> k - 1])
    [] x.k = "at" -> IF \E k \in 1..Len(x.i) : ~InRange(x.i[k], n) THEN Refused
                     ELSE AtPositions(g, [k \in 1..Len(x.i) |-> Pos(x.i[k], n)])
    [] x.k = "slice" -> AtPositions(g, Slice(n, x.a, x.b, x.s))
    [] x.k = "val" -> Found([k \in 1..Len(x.t) |-> {i - 1 : i \in Nearest(g, x.t[k], "none")}], x.t)
    [] x.k = "name" ->
         LET Is(e) == IF e[1] = "n" THEN {i \in 1..n : g[i] = e[2]} ELSE IF InRange(e[2], n) THEN {Pos(e[2], n) + 1} ELSE {}
             p == [k \in 1..Len(x.e) |-> Is(x.e[k])]
         IN IF \E k \in 1..Len(x.e) : p[k] = {} THEN Refused
            ELSE AtPositions(g, [k \in 1..Len(x.e) |-> (CHOOSE i \in p[k] : \A j \in p[k] : i <= j) - 1])
(* Laws: positions lie on the axis, a selection by position gives the grid's    *)
(* own values, asking for the grid's own values gives their positions.          *)
AxisLaws(g, x) == LET r == Chosen(g, x) IN r.ok =>
  /\ Len(r.points) = Len(r.values)
  /\ \A k \in 1..Len(r.points) : r.points[k] # {} /\ r.points[k] \subseteq 0..(Len(g) - 1)
  /\ x.k # "val" => \A k \in 1..Len(r.points) : \A p \in r.points[k] : g[p + 1] = r.values[k]
  /\ x.k = "val" => \A k \in 1..Len(x.t) : (\E i \in 1..Len(g) : g[i] = x.t[k]) => \A p \in r.points[k] : g[p + 1] = x.t[k]
=============================================================================
