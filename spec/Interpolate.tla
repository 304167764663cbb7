---------------------------- MODULE Interpolate ----------------------------
(* Linear interpolation on a strictly monotone grid g at target t:            *)
(* w * v[hi] + (1 - w) * v[lo] with w = num / den.                             *)
EXTENDS GridSearch, Rationals
Strict(g) == \/ \A i \in 1..(Len(g) - 1) : g[i] < g[i + 1]
             \/ \A i \in 1..(Len(g) - 1) : g[i] > g[i + 1]
On(g, t) == {i \in Positions(g) : g[i] = t}
Interp(g, t) ==
  IF ~Strict(g) \/ ~Inside(g, t) THEN [ok |-> FALSE, lo |-> 1, hi |-> 1, w |-> RZero]
  ELSE IF On(g, t) # {} THEN LET i == CHOOSE i \in On(g, t) : TRUE IN [ok |-> TRUE, lo |-> i, hi |-> i, w |-> RZero]
  ELSE LET i == CHOOSE i \in 1..(Len(g) - 1) : Encloses(g, <<i, i + 1>>, t)
       IN [ok |-> TRUE, lo |-> i, hi |-> i + 1, w |-> Rat(t - g[i], g[i + 1] - g[i])]
Blend(x, v) == RAdd(RMul(x.w, RInt(v[x.hi])), RMul(RSub(ROne, x.w), RInt(v[x.lo])))
(* the interpolated value of one lane: grid g, data v *)
InterpLaws(g, t) == LET x == Interp(g, t) IN x.ok =>
  /\ Blend(x, g) = RInt(t)                               \* reproduces the coordinate itself
  /\ Blend(x, [i \in Positions(g) |-> 7]) = RInt(7)      \* and constants
  /\ RLeq(RZero, x.w) /\ RLess(x.w, ROne)
  /\ <<x.lo, x.hi>> \in Brackets(g, t)
=============================================================================
