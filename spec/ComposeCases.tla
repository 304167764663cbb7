---------------------------- MODULE ComposeCases ----------------------------
(* Evaluate requests for composed quantities: {"d", "r", "os", "x": tree} with  *)
(* trees <<"v", q>>, <<"*", a, b>>, <<"/", a, b>>, <<"^", a, n, d>>; the        *)
(* request's "what" is the product of powers that the tree stands for.          *)
EXTENDS Observe, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Add(f, g, e) == [q \in DOMAIN f \cup DOMAIN g |->
                   RAdd(IF q \in DOMAIN f THEN f[q] ELSE RZero, IF q \in DOMAIN g THEN RMul(e, g[q]) ELSE RZero)]
RECURSIVE Product(_)
Product(x) ==
  CASE x[1] = "v" -> (x[2] :> ROne)
    [] x[1] = "*" -> Add(Product(x[2]), Product(x[3]), ROne)
    [] x[1] = "/" -> Add(Product(x[2]), Product(x[3]), RInt(-1))
    [] x[1] = "^" -> LET f == Product(x[2]) IN [q \in DOMAIN f |-> RMul(f[q], Rat(x[3], x[4]))]
RECURSIVE AsSeq(_, _)
AsSeq(f, S) == IF S = {} THEN <<>>
               ELSE LET q == CHOOSE q \in S : TRUE
                    IN (IF f[q] = RZero THEN <<>> ELSE <<[q |-> q, e |-> f[q]]>>) \o AsSeq(f, S \ {q})
(* quantities that cancel are not part of the result: not judged *)
Judge(c) == LET f == Product(c.x)
                what == AsSeq(f, DOMAIN f)
                r == c.r @@ [what |-> what]
            IN IF Len(what) # Cardinality(DOMAIN f) \/ (c.x[1] # "v" /\ IsCoordinate(r)) THEN [ok |-> FALSE]
               ELSE Observation(c.d, r, c.os) @@ [what |-> what]
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
