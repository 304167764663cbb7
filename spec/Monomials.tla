----------------------------- MODULE Monomials -----------------------------
(* Products of powers: a monomial maps each generator (a symbol, a prime, or  *)
(* "-" for the sign) to its rational exponent.  Generators with exponent zero *)
(* are left out, so equal monomials are equal functions.                      *)
EXTENDS Rationals, FiniteSets, TLC
MOne == [x \in {} |-> RZero]
MGen(g) == g :> ROne
MExp(m, g) == IF g \in DOMAIN m THEN m[g] ELSE RZero
MClean(f) == LET s == {g \in DOMAIN f : f[g] # RZero /\ ~(g = "-" /\ f[g][2] = 1 /\ f[g][1] % 2 = 0)}
             IN [g \in s |-> IF g = "-" THEN ROne ELSE f[g]]
MMul(m, n) == MClean([g \in DOMAIN m \cup DOMAIN n |-> RAdd(MExp(m, g), MExp(n, g))])
MPow(m, r) == MClean([g \in DOMAIN m |-> RMul(m[g], r)])
MInv(m)    == MPow(m, RInt(-1))
MDiv(m, n) == MMul(m, MInv(n))
(* a fractional power of a negative number is not a real monomial *)
MPowDefined(m, r) == "-" \in DOMAIN m => RIsInt(r)
=============================================================================
