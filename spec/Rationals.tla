----------------------------- MODULE Rationals -----------------------------
(* Rational numbers <<n, d>> in lowest terms, d > 0 (TLC integers are 32 bit). *)
EXTENDS Integers
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
             IN <<(s * n) \div g, (s * d) \div g>>
RInt(n)    == <<n, 1>>
RZero      == <<0, 1>>
ROne       == <<1, 1>>
RAdd(x, y) == LET g == Gcd(x[2], y[2])
              IN Rat(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
RNeg(x)    == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
(* cross-reduce first, to keep intermediate values small *)
RMul(x, y) == LET g == Gcd(Abs(x[1]), y[2]) h == Gcd(Abs(y[1]), x[2])
              IN <<(x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g)>>
RInv(x)    == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>
RDiv(x, y) == RMul(x, RInv(y))
RLess(x, y) == x[1] * y[2] < y[1] * x[2]
RLeq(x, y)  == x[1] * y[2] <= y[1] * x[2]
RIsInt(x)  == x[2] = 1
=============================================================================
