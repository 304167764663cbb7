------------------------------- MODULE Headers -------------------------------
(* What the simulation's source files define.                                  *)
(*                                                                             *)
(* A constant is defined by an arithmetic tree over literal numbers and other  *)
(* constants.  Its value is a monomial in the literals: a function from the    *)
(* number of each literal to its exponent, counted in 64ths so that nested     *)
(* square roots stay exact.  The last definition of a name is the one that     *)
(* counts.                                                                     *)
(*                                                                             *)
(* A parameter is declared by the call that reads it; arrays take their        *)
(* default from a separately declared variable.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

One == [n \in {} |-> 0]
Clean(m) == [n \in {x \in DOMAIN m : m[x] # 0} |-> m[n]]
At(m, n) == IF n \in DOMAIN m THEN m[n] ELSE 0
Times(a, b) == Clean([n \in DOMAIN a \cup DOMAIN b |-> At(a, n) + At(b, n)])
Over(a, b) == Clean([n \in DOMAIN a \cup DOMAIN b |-> At(a, n) - At(b, n)])
Root(a) == [n \in DOMAIN a |-> a[n] \div 2]

Last(defs, name) ==
  LET at == {k \in 1..Len(defs) : defs[k].name = name}
  IN IF at = {} THEN 0 ELSE CHOOSE k \in at : \A j \in at : j <= k

Bad == [ok |-> FALSE, m |-> One]
Both(a, b, m) == IF a.ok /\ b.ok THEN [ok |-> TRUE, m |-> m] ELSE Bad
RECURSIVE Value(_, _)
Value(defs, t) ==
  CASE t.op = "num" -> [ok |-> TRUE, m |-> [n \in {t.id} |-> 64]]
    [] t.op = "ref" -> LET k == Last(defs, t.name)
                       IN IF k = 0 THEN Bad ELSE Value(defs, defs[k].tree)
    [] t.op = "par" -> Value(defs, t.x)
    [] t.op = "sqrt" -> LET a == Value(defs, t.x) IN Both(a, a, Root(a.m))
    [] t.op = "mul" -> LET a == Value(defs, t.x)
                           b == Value(defs, t.y) IN Both(a, b, Times(a.m, b.m))
    [] t.op = "div" -> LET a == Value(defs, t.x)
                           b == Value(defs, t.y) IN Both(a, b, Over(a.m, b.m))

Defined(defs) == {defs[k].name : k \in 1..Len(defs)}
Mono(m) == {<<n, m[n]>> : n \in DOMAIN m}
Constants(defs) ==
  {LET v == Value(defs, [op |-> "ref", name |-> n]) IN [name |-> n, ok |-> v.ok, m |-> Mono(v.m)]
     : n \in Defined(defs)}

(* Parameters: calls and array variables, in any order.                        *)
ArrayNamed(arrays, name) == Last(arrays, name)
Declared(calls, arrays, name) ==
  LET c == calls[Last(calls, name)]
      k == IF c.mode = "readDoubleArray" THEN Last(arrays, c.default) ELSE 0
  IN [name |-> name, mode |-> c.mode, alias |-> IF c.key = name THEN "" ELSE c.key,
      array |-> k # 0,
      values |-> IF k = 0 THEN <<>> ELSE arrays[k].values,
      default |-> c.default,
      limits |-> c.limits]
Parameters(calls, arrays) ==
  {Declared(calls, arrays, n) : n \in {calls[k].name : k \in 1..Len(calls)}}
=============================================================================
