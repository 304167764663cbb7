------------------------------- MODULE Names -------------------------------
(* Names of quantities. A name is the set of its aliases (texts); {""} is    *)
(* the name of an unnamed quantity. Texts are joined with \o.                *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
Unnamed == {""}
Symbol(op) == CASE op = "add" -> " + " [] op = "sub" -> " - " [] op = "mul" -> " * "
                [] op = "div" -> " / " [] op = "pow" -> "^"
Additive(op) == op \in {"add", "sub"}
(* operands both named *)
Binary(op, a, b) ==
  IF a = Unnamed \/ b = Unnamed THEN Unnamed
  ELSE IF a = b THEN IF Additive(op) THEN a ELSE {x \o Symbol(op) \o x : x \in a}
  ELSE {x \o Symbol(op) \o y : x \in a, y \in b}
(* k is the text of a number other than 0; a number cannot be added *)
WithNumber(op, a, k) == IF a = Unnamed THEN Unnamed ELSE IF k = "1" THEN a ELSE {x \o Symbol(op) \o k : x \in a}
NumberWith(op, k, a) == IF a = Unnamed THEN Unnamed ELSE IF k = "1" THEN a ELSE {k \o Symbol(op) \o x : x \in a}
Unary(op, a) ==
  IF a = Unnamed THEN Unnamed
  ELSE CASE op = "neg" -> {"-" \o x : x \in a} [] op = "pos" -> {"+" \o x : x \in a}
         [] op = "keep" -> a [] op = "sqrt" -> {x \o "^1/2" : x \in a}
         [] OTHER -> {op \o "(" \o x \o ")" : x \in a}
(* further aliases are equivalent to the present ones; a reset replaces them *)
Alias(a, new, reset) == IF reset THEN new ELSE a \cup new
RECURSIVE Run(_, _, _)
(* a program: each step appends the name of its result to the ones so far    *)
Step(env, s) ==
  CASE s.o = "leaf" -> {s.a[i] : i \in DOMAIN s.a}
    [] s.o = "binary" -> Binary(s.op, env[s.l], env[s.r])
    [] s.o = "number" -> WithNumber(s.op, env[s.l], s.n)
    [] s.o = "reverse" -> NumberWith(s.op, s.n, env[s.l])
    [] s.o = "unary" -> Unary(s.op, env[s.l])
    [] s.o = "alias" -> Alias(env[s.l], {s.a[i] : i \in DOMAIN s.a}, s.reset)
Run(env, prog, i) == IF i > Len(prog) THEN env ELSE Run(Append(env, Step(env, prog[i])), prog, i + 1)
=============================================================================
