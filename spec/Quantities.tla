----------------------------- MODULE Quantities -----------------------------
(* Measured values and the operations on them.  A quantity has a kind (how it  *)
(* is represented), a sequence of numbers and a unit.  The number at position  *)
(* k is coef[k] (a rational) times scale (a monomial over primes and physical  *)
(* constants, gathered from unit conversions).  A program works on registers;  *)
(* Step(regs, op) is the only place where the meaning of an operation is       *)
(* defined: its outcome is                                                     *)
(*   "must"    the operation succeeds with this result                         *)
(*   "once"    the same, but the program does not keep the result              *)
(*   "may"     it succeeds with this result or is refused                      *)
(*   "refuse"  it is refused and nothing changes                               *)
(*   "open"    outside this model (nothing changes in the model)               *)
EXTENDS Units, IOUtils
Kinds == {"number", "mquantity", "mscalar", "scalar", "vector", "array", "variable", "index"}
Single == {"mquantity", "mscalar", "scalar"}
Multi  == {"vector", "array", "variable"}
Numpy  == {"array", "variable"}
(* -- numbers ------------------------------------------------------------- *)
Small(x) == Abs(x[1]) < 20000 /\ x[2] < 20000
AllSmall(s) == \A k \in 1..Len(s) : Small(s[k])
RECURSIVE RPowN(_, _)
RPowN(x, n) == IF n = 0 THEN ROne ELSE RMul(x, RPowN(x, n - 1))
Tiny(x, n) == Abs(x[1]) < (IF n <= 2 THEN 200 ELSE 30) /\ x[2] < (IF n <= 2 THEN 200 ELSE 30)
IsSquare(n) == \E k \in 0..150 : k * k = n
Root(n) == CHOOSE k \in 0..150 : k * k = n
PowDefined(x, e) ==
  /\ x # RZero
  /\ \/ e[2] = 1 /\ Abs(e[1]) \in 1..3 /\ Tiny(x, Abs(e[1]))
     \/ e[2] = 2 /\ Abs(e[1]) \in {1, 3} /\ x[1] > 0 /\ x[1] < 900 /\ x[2] < 900 /\ IsSquare(x[1]) /\ IsSquare(x[2])
Pow(x, e) == LET b == IF e[2] = 2 THEN <<Root(x[1]), Root(x[2])>> ELSE x
                 p == RPowN(b, Abs(e[1]))
             IN IF e[1] < 0 THEN RInv(p) ELSE p
(* a monomial over 2, 3, 5 as a rational, when small *)
Rational(m) == \A g \in DOMAIN m : g \in {"2", "3", "5"} /\ m[g][2] = 1 /\ Abs(m[g][1]) <= 4
Prime(g) == CASE g = "2" -> 2 [] g = "3" -> 3 [] g = "5" -> 5
RECURSIVE ToRat(_)
ToRat(m) == IF DOMAIN m = {} THEN ROne
            ELSE LET g == CHOOSE g \in DOMAIN m : TRUE
                     p == RPowN(RInt(Prime(g)), Abs(m[g][1]))
                     r == [h \in DOMAIN m \ {g} |-> m[h]]
                 IN RMul(IF m[g][1] < 0 THEN RInv(p) ELSE p, ToRat(r))
(* -- units --------------------------------------------------------------- *)
UKey(e) == FoldSeq(LAMBDA t, acc : MMul(acc, MPow(MGen(t[1] \o "|" \o t[2]), Exp(t))), MOne, e)
Keys == {p \o "|" \o b : p \in DOMAIN Prefix, b \in DOMAIN Base} \cup {"|" \o n : n \in Numbers}
UMul(a, b) == a \o b
UPow(a, r) == [k \in 1..Len(a) |-> LET x == RMul(Exp(a[k]), r) IN <<a[k][1], a[k][2], x[1], x[2]>>]
(* same unit: "yes" (same names), "no" (another size or dimension), "open" *)
SameUnit(a, b) ==
  IF UKey(a) = UKey(b) THEN "yes"
  ELSE IF Allowed(a) = {} \/ Allowed(b) = {} THEN "open"
  ELSE LET v == Verdict(a, b, TRUE) IN
       IF v = "no" THEN "no"
       ELSE IF v = "yes" /\ Factor(a, b, TRUE) # MOne THEN "no" ELSE "open"
(* -- outcomes ------------------------------------------------------------ *)
Open == [tag |-> "open"]
Refuse == [tag |-> "refuse"]
Q(tag, kind, coef, scale, unit) ==
  [tag |-> tag, kind |-> kind, coef |-> coef, scale |-> scale, unit |-> unit]
B(tag, bools) == [tag |-> tag, bools |-> bools]
Number(o) == "num" \in DOMAIN o
(* -- binary operations --------------------------------------------------- *)
Len2(a, b) == IF Len(a) = Len(b) THEN Len(a) ELSE IF Len(a) = 1 THEN Len(b) ELSE Len(a)
Fits(a, b) == Len(a) = Len(b) \/ Len(a) = 1 \/ Len(b) = 1
At(s, k) == IF Len(s) = 1 THEN s[1] ELSE s[k]
(* does the implementation promise a result for these kinds? *)
Promised(x, y) == \/ x.kind = y.kind /\ (x.kind \in Multi => Len(x.coef) = Len(y.coef))
                  \/ x.kind = "vector" /\ y.kind = "scalar"
Align(x, y) == LET r == MDiv(y.scale, x.scale) IN IF Rational(r) THEN <<ToRat(r)>> ELSE <<>>
Compare(f, a, b) == CASE f = "lt" -> RLess(a, b) [] f = "le" -> RLeq(a, b)
                      [] f = "gt" -> RLess(b, a) [] f = "ge" -> RLeq(b, a)
QuantityQuantity(f, x, y) ==
  LET p == IF Promised(x, y) THEN "must" ELSE "may"
      n == Len2(x.coef, y.coef)
      same == SameUnit(x.unit, y.unit)
      al == Align(x, y)
  IN
  IF f = "pow" THEN Refuse
  ELSE IF f \in {"mul", "div"} THEN
    IF ~Fits(x.coef, y.coef) THEN Refuse
    ELSE IF ~AllSmall(x.coef \o y.coef) \/ (f = "div" /\ \E k \in 1..Len(y.coef) : y.coef[k] = RZero) THEN Open
    ELSE IF f = "mul"
         THEN Q(p, x.kind, [k \in 1..n |-> RMul(At(x.coef, k), At(y.coef, k))], MMul(x.scale, y.scale), UMul(x.unit, y.unit))
         ELSE Q(p, x.kind, [k \in 1..n |-> RDiv(At(x.coef, k), At(y.coef, k))], MDiv(x.scale, y.scale), UMul(x.unit, UPow(y.unit, RInt(-1))))
  ELSE IF same = "no" THEN IF f \in {"eq", "ne"} THEN (IF x.kind = y.kind /\ Len(x.coef) = Len(y.coef) THEN B("must", <<f = "ne">>) ELSE Open) ELSE Refuse
  ELSE IF ~Fits(x.coef, y.coef) THEN (IF f \in {"eq", "ne"} THEN Open ELSE Refuse)
  ELSE IF al = <<>> \/ ~AllSmall(x.coef \o y.coef) \/ ~Small(al[1]) THEN Open
  ELSE LET yc == [k \in 1..Len(y.coef) |-> RMul(y.coef[k], al[1])]
           tag == IF same = "yes" THEN p ELSE "may" IN
    IF ~AllSmall(yc) THEN Open
    ELSE IF f = "add" THEN Q(tag, x.kind, [k \in 1..n |-> RAdd(At(x.coef, k), At(yc, k))], x.scale, x.unit)
    ELSE IF f = "sub" THEN Q(tag, x.kind, [k \in 1..n |-> RSub(At(x.coef, k), At(yc, k))], x.scale, x.unit)
    ELSE IF f \in {"eq", "ne"} THEN
       IF x.kind # y.kind \/ Len(x.coef) # Len(y.coef) \/ x.name # y.name \/ same # "yes" THEN Open
       ELSE B("must", <<(x.coef = yc) = (f = "eq")>>)
    ELSE B(IF x.name = y.name \/ {x.kind, y.kind} \subseteq Numpy THEN tag ELSE "may",
           [k \in 1..n |-> Compare(f, At(x.coef, k), At(yc, k))])
QuantityNumber(f, x, r, np) ==
  LET n == Len(x.coef) sc == MOne
      alx == Align([scale |-> MOne], x) IN
  CASE f \in {"add", "sub"} -> IF UKey(x.unit) = MOne THEN Open ELSE Refuse
    [] f = "mul" -> IF AllSmall(x.coef) THEN Q("must", x.kind, [k \in 1..n |-> RMul(x.coef[k], r)], x.scale, x.unit) ELSE Open
    [] f = "div" -> IF r # RZero /\ AllSmall(x.coef) THEN Q("must", x.kind, [k \in 1..n |-> RDiv(x.coef[k], r)], x.scale, x.unit) ELSE Open
    [] f = "pow" -> IF r # RZero /\ \A k \in 1..n : PowDefined(x.coef[k], r)
                    THEN Q("must", x.kind, [k \in 1..n |-> Pow(x.coef[k], r)], MPow(x.scale, r), UPow(x.unit, r)) ELSE Open
    [] f \in {"eq", "ne"} -> Open
    [] OTHER -> IF alx = <<>> \/ ~Small(alx[1]) \/ ~AllSmall(x.coef) THEN Open
                ELSE B("must", [k \in 1..n |-> Compare(f, RMul(x.coef[k], alx[1]), r)])
NumberQuantity(f, r, x, np) ==
  LET n == Len(x.coef) IN
  CASE f \in {"add", "sub"} -> IF UKey(x.unit) = MOne THEN Open ELSE Refuse
    [] f \in {"div", "pow"} -> Refuse
    [] f = "mul" -> IF AllSmall(x.coef) THEN Q("must", x.kind, [k \in 1..n |-> RMul(x.coef[k], r)], x.scale, x.unit) ELSE Open
    [] OTHER -> Open
Binary(f, regs, a, b) ==
  IF Number(a) THEN NumberQuantity(f, Rat(a.num[1], a.num[2]), regs[b.r], a.np)
  ELSE IF Number(b) THEN QuantityNumber(f, regs[a.r], Rat(b.num[1], b.num[2]), b.np)
  ELSE QuantityQuantity(f, regs[a.r], regs[b.r])
(* -- unary operations ---------------------------------------------------- *)
Floor(x) == x[1] \div x[2]
Ceil(x) == -((-x[1]) \div x[2])
Trunc(x) == IF x[1] < 0 THEN Ceil(x) ELSE Floor(x)
Round(x) == LET f == Floor(x) h == RSub(x, RInt(f)) IN
            IF RLess(h, <<1, 2>>) THEN f ELSE IF RLess(<<1, 2>>, h) THEN f + 1
            ELSE IF f % 2 = 0 THEN f ELSE f + 1
Unary(f, x) ==
  LET n == Len(x.coef)
      each(g(_)) == [k \in 1..n |-> g(x.coef[k])] IN
  CASE f = "neg" -> Q("must", x.kind, each(RNeg), x.scale, x.unit)
    [] f = "pos" -> Q("must", x.kind, x.coef, x.scale, x.unit)
    [] f = "abs" -> Q("must", x.kind, each(LAMBDA c : <<Abs(c[1]), c[2]>>), x.scale, x.unit)
    [] f \in {"round", "floor", "ceil", "trunc", "int", "float"} ->
       IF x.kind \notin {"mscalar", "scalar"} \/ x.scale # MOne THEN Open
       ELSE LET c == x.coef[1]
                v == CASE f = "round" -> RInt(Round(c)) [] f = "floor" -> RInt(Floor(c))
                       [] f = "ceil" -> RInt(Ceil(c)) [] f \in {"trunc", "int"} -> RInt(Trunc(c))
                       [] f = "float" -> c
            IN IF f \in {"int", "float"} THEN [tag |-> "must", number |-> v]
               ELSE Q("must", x.kind, <<v>>, x.scale, x.unit)
(* -- other views of a quantity ------------------------------------------- *)
Convert(x, u) ==
  IF UKey(u) = UKey(x.unit) THEN Q("must", x.kind, x.coef, x.scale, x.unit)
  ELSE IF Allowed(x.unit) = {} \/ Allowed(u) = {} THEN Open
  ELSE LET v == Verdict(x.unit, u, FALSE) vp == Verdict(x.unit, u, TRUE) IN
       IF v = "yes" /\ vp = "yes" /\ Factor(x.unit, u, FALSE) = Factor(x.unit, u, TRUE)
       THEN Q("must", x.kind, x.coef, MMul(x.scale, Factor(x.unit, u, FALSE)), u)
       ELSE IF v = "no" /\ vp = "no" THEN Refuse ELSE Open
(* into the coherent unit of metric system s *)
BaseUnit(d, s) ==
  CASE d = "M" -> <<IF s = "mks" THEN "k" ELSE "", "g">> [] d = "L" -> <<IF s = "mks" THEN "" ELSE "c", "m">>
    [] d = "T" -> <<"", "s">> [] d = "I" -> <<"", "A">> [] d = "H" -> <<"", "K">> [] d = "N" -> <<"", "mol">>
    [] d = "J" -> <<"", "cd">>
Coherent(m, s) == LET ds == SetToSeq(DOMAIN m)
                  IN [k \in 1..Len(ds) |-> BaseUnit(ds[k], s) \o m[ds[k]]]
Regular(e) == \A k \in 1..Len(e) : e[k][2] \in Numbers \/ Quant[Base[e[k][2]].quantity].known
Systemic(x, s) ==
  IF Allowed(x.unit) = {} \/ ~Regular(x.unit) \/ Dims(x.unit, s, TRUE) # Dims(x.unit, s, FALSE) THEN Open
  ELSE Q(IF Allowed(x.unit) = Systems /\ Dims(x.unit, "mks", FALSE) = Dims(x.unit, "cgs", FALSE) THEN "must" ELSE IF s \in Allowed(x.unit) THEN "once" ELSE "may", x.kind, x.coef, MMul(x.scale, Size(x.unit, s)),
         Coherent(Dims(x.unit, s, FALSE), s))
Pick(x, ks) == Q("must", x.kind, [j \in 1..Len(ks) |-> x.coef[ks[j]]], x.scale, x.unit)
Item(x, k) == IF k \notin 1..Len(x.coef) THEN Refuse ELSE Q("must", "scalar", <<x.coef[k]>>, x.scale, x.unit)
(* -- programs ------------------------------------------------------------ *)
Step(regs, o) ==
  CASE o.op = "bin"  -> Binary(o.f, regs, o.a, o.b)
    [] o.op = "ibin" -> Binary(o.f, regs, o.a, o.b)
    [] o.op = "un"   -> Unary(o.f, regs[o.a.r])
    [] o.op = "conv" -> Convert(regs[o.a.r], o.u)
    [] o.op = "sys"  -> Systemic(regs[o.a.r], o.s)
    [] o.op = "item" -> Item(regs[o.a.r], o.k)
    [] o.op = "pick" -> Pick(regs[o.a.r], o.ks)
    [] o.op \in {"read", "copy"} -> LET x == regs[o.a.r] IN Q("must", x.kind, x.coef, x.scale, x.unit)
IsQ(res) == "coef" \in DOMAIN res
Assign(regs, o, res) ==
  IF res.tag = "must" /\ IsQ(res) /\ "dst" \in DOMAIN o
  THEN [regs EXCEPT ![o.dst] = [kind |-> res.kind, coef |-> res.coef, scale |-> res.scale,
                                unit |-> res.unit, name |-> "?" \o ToString(o.n)]]
  ELSE regs
Start(c) == [k \in 1..Len(c.init) |->
               [kind |-> c.init[k].kind, name |-> c.init[k].name, scale |-> MOne, unit |-> c.init[k].unit,
                coef |-> [j \in 1..Len(c.init[k].data) |-> Rat(c.init[k].data[j][1], c.init[k].data[j][2])]]]
RECURSIVE RunFrom(_, _, _, _)
RunFrom(regs, ops, k, acc) ==
  IF k > Len(ops) THEN acc
  ELSE LET res == Step(regs, ops[k])
       IN RunFrom(Assign(regs, ops[k], res), ops, k + 1, Append(acc, res))
Run(c) == RunFrom(Start(c), c.ops, 1, <<>>)
=============================================================================
