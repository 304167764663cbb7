----------------------------- MODULE GridSearch -----------------------------
(* Searching a finite sequence of numbers (integers here: the harness scales) *)
(* for a target: which positions (1-based) may be returned.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Dist(x, y) == IF x < y THEN y - x ELSE x - y
Positions(g) == 1..Len(g)
Closest(g, S, t) == {i \in S : \A j \in S : Dist(g[i], t) <= Dist(g[j], t)}
(* the constraint "lower" bounds the result from below by the target *)
Side(g, t, bound) == CASE bound = "lower" -> {i \in Positions(g) : g[i] >= t}
                       [] bound = "upper" -> {i \in Positions(g) : g[i] <= t}
                       [] OTHER -> Positions(g)
Nearest(g, t, bound) ==
  IF Side(g, t, bound) = {} THEN Closest(g, Positions(g), t) ELSE Closest(g, Side(g, t, bound), t)

Increasing(g) == \A i \in 1..(Len(g) - 1) : g[i] <= g[i + 1]
Decreasing(g) == \A i \in 1..(Len(g) - 1) : g[i] >= g[i + 1]
Monotone(g)   == Increasing(g) \/ Decreasing(g)
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x < y THEN y ELSE x
Encloses(g, p, t) == Min(g[p[1]], g[p[2]]) <= t /\ t <= Max(g[p[1]], g[p[2]])
Inside(g, t) == Encloses(g, <<1, Len(g)>>, t)
Neighbours(g) == {p \in Positions(g) \X Positions(g) : p[2] = p[1] \/ p[2] = p[1] + 1}
(* allowed brackets of a monotone grid *)
Brackets(g, t) ==
  IF Inside(g, t) THEN {p \in Neighbours(g) : Encloses(g, p, t)}
  ELSE {<<i, i>> : i \in {1, Len(g)} \cap Closest(g, Positions(g), t)}

Answer(g, t) ==
  [none |-> Nearest(g, t, "none"), lower |-> Nearest(g, t, "lower"), upper |-> Nearest(g, t, "upper"),
   brackets |-> IF Monotone(g) THEN Brackets(g, t) ELSE {}]

(* Laws of the specification itself. *)
Laws(g, t) ==
  /\ Nearest(g, t, "none") # {}
  /\ \A i \in Nearest(g, t, "none") :
       \/ i \in Nearest(g, t, "lower") \/ i \in Nearest(g, t, "upper")
  /\ Monotone(g) => /\ Brackets(g, t) # {}
                    /\ \E p \in Brackets(g, t) : p[1] \in Nearest(g, t, "none") \/ p[2] \in Nearest(g, t, "none")
=============================================================================
