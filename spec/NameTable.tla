----------------------------- MODULE NameTable -----------------------------
(* Every pair of names over Letters (or unnamed) under every operation.      *)
EXTENDS Names
CONSTANT Letters
AllNames == {Unnamed} \cup (SUBSET Letters \ {{}})
Binaries == {"add", "sub", "mul", "div", "pow"}
Unaries == {"neg", "pos", "abs", "round", "floor", "ceil", "trunc", "sqrt", "keep"}
VARIABLES a, b, op
Init == a \in AllNames /\ b \in AllNames /\ op \in Binaries
Next == FALSE /\ UNCHANGED <<a, b, op>>
Laws ==
  LET r == Binary(op, a, b) IN
  /\ (r = Unnamed) = (a = Unnamed \/ b = Unnamed)
  /\ r # {} /\ ("" \in r => r = Unnamed)
  /\ (a # b /\ r # Unnamed) => Cardinality(r) = Cardinality(a) * Cardinality(b)
  /\ (a = b) => Cardinality(r) = Cardinality(a)
  /\ \A u \in Unaries : Cardinality(Unary(u, a)) = Cardinality(a)
  /\ WithNumber("mul", a, "1") = a
  /\ Alias(a, b, FALSE) = Alias(b, a, FALSE) /\ Alias(a, b, TRUE) = b
Inv == Laws /\ PrintT("@@" \o ToJson([a |-> a, b |-> b, op |-> op, r |-> Binary(op, a, b)]))
=============================================================================
