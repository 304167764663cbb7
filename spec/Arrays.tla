------------------------------- MODULE Arrays -------------------------------
(* Array quantities: numbers over named axes, with a unit.                     *)
(*   [dims: names, shape: lengths, data: rationals in row-major order,          *)
(*    e10: power of ten that multiplies every number, unit: <<symbol, n, d>>s]  *)
(* A program works on registers; Step defines what each operation means.        *)
(* Outcomes: "must" (succeeds with this result), "may" (this result, or          *)
(* refused), "refuse", "open" (not specified; nothing is kept).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals, SequencesExt, Lookup
Prod(s) == FoldLeft(LAMBDA acc, n : acc * n, 1, s)
SumR(s) == FoldLeft(LAMBDA acc, x : RAdd(acc, x), RZero, s)
Index(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Stride(shape, k) == Prod(SubSeq(shape, k + 1, Len(shape)))
(* coordinates (from 1) of flat position p, and back *)
Coords(p, shape) == [k \in 1..Len(shape) |-> (((p - 1) \div Stride(shape, k)) % shape[k]) + 1]
FlatPos(c, shape) == 1 + FoldLeft(LAMBDA acc, k : acc + (c[k] - 1) * Stride(shape, k), 0, [k \in 1..Len(shape) |-> k])
Small(x) == Abs(x[1]) < 20000 /\ x[2] < 20000
AllSmall(s) == \A k \in 1..Len(s) : Small(s[k])
Array(dims, shape, data, e10, unit) == [dims |-> dims, shape |-> shape, data |-> data, e10 |-> e10, unit |-> unit]

(* ---- units: exponents of independent symbols ------------------------------- *)
Symbols == {"m", "s", "J", "km", "mm"}
Expo(u, b) == FoldLeft(LAMBDA acc, t : IF t[1] = b THEN RAdd(acc, <<t[2], t[3]>>) ELSE acc, RZero, u)
UnitOf(f) == LET S == {b \in Symbols : f[b] # RZero} IN [k \in 1..Cardinality(S) |-> LET b == SetToSeq(S)[k] IN <<b, f[b][1], f[b][2]>>]
Canonical(u) == UnitOf([b \in Symbols |-> Expo(u, b)])
UTimes(u, v) == Canonical(u \o v)
UPower(u, r) == Canonical([k \in 1..Len(u) |-> LET x == RMul(<<u[k][2], u[k][3]>>, r) IN <<u[k][1], x[1], x[2]>>])
(* lengths: what one symbol is worth in another, as a power of ten *)
Length10 == ("m" :> 0) @@ ("km" :> 3) @@ ("mm" :> -3)

(* ---- selection ------------------------------------------------------------- *)
(* an index: [k |-> "int", i], [k |-> "slice", a, b, s], [k |-> "seq", s],        *)
(* [k |-> "dots"]; positions count from 0 and from the end if negative            *)
InRange(i, n) == -n <= i /\ i < n
Pos(i, n) == IF i < 0 THEN i + n ELSE i
Legal(x, n) == CASE x.k = "int" -> InRange(x.i, n)
                 [] x.k = "seq" -> \A j \in 1..Len(x.s) : InRange(x.s[j], n)
                 [] x.k = "slice" -> TRUE
Positions(x, n) == CASE x.k = "int" -> <<Pos(x.i, n)>>
                     [] x.k = "seq" -> [j \in 1..Len(x.s) |-> Pos(x.s[j], n)]
                     [] x.k = "slice" -> Slice(n, x.a, x.b, x.s)
All == [k |-> "slice", a |-> <<>>, b |-> <<>>, s |-> <<>>]
Dots(user) == {j \in 1..Len(user) : user[j].k = "dots"}
Expand(user, n) ==
  LET fill == [j \in 1..(n - Len(user) + Cardinality(Dots(user))) |-> All]
      at == IF Dots(user) = {} THEN Len(user) + 1 ELSE CHOOSE j \in Dots(user) : TRUE
  IN SubSeq(user, 1, at - 1) \o fill \o SubSeq(user, at + 1, Len(user))
Selectable(x, user) ==
  /\ Cardinality(Dots(user)) <= 1
  /\ Len(user) - Cardinality(Dots(user)) <= Len(x.shape)
  /\ LET e == Expand(user, Len(x.shape)) IN \A j \in 1..Len(e) : Legal(e[j], x.shape[j])
Select(x, user) ==
  LET e == Expand(user, Len(x.shape))
      ps == [j \in 1..Len(e) |-> Positions(e[j], x.shape[j])]
      shape == [j \in 1..Len(e) |-> Len(ps[j])]
  IN [x EXCEPT !.shape = shape,
      !.data = [p \in 1..Prod(shape) |-> LET c == Coords(p, shape) IN
                x.data[FlatPos([j \in 1..Len(e) |-> ps[j][c[j]] + 1], x.shape)]]]

(* ---- arithmetic by axis name ------------------------------------------------ *)
Size(x, d) == x.shape[Index(x.dims, d)]
Has(x, d) == \E k \in 1..Len(x.dims) : x.dims[k] = d
Union(x, y) == Unique(x.dims \o y.dims)
Agree(x, y) == \A k \in 1..Len(x.dims) : Has(y, x.dims[k]) => Size(y, x.dims[k]) = x.shape[k]
At(x, c, dims) == x.data[FlatPos([k \in 1..Len(x.dims) |-> c[Index(dims, x.dims[k])]], x.shape)]
ByName(Op(_, _), x, y, dims) ==
  LET shape == [k \in 1..Len(dims) |-> IF Has(x, dims[k]) THEN Size(x, dims[k]) ELSE Size(y, dims[k])]
  IN [shape |-> shape, data |-> [p \in 1..Prod(shape) |-> LET c == Coords(p, shape) IN Op(At(x, c, dims), At(y, c, dims))]]
Must(x) == [tag |-> "must", x |-> x]
May(x) == [tag |-> "may", x |-> x]
Refuse == [tag |-> "refuse"]
Open == [tag |-> "open"]
Bounded(r) == IF "x" \in DOMAIN r /\ ~AllSmall(r.x.data) THEN Open ELSE r
Multiply(x, y, inv) ==
  IF ~Agree(x, y) THEN Refuse
  ELSE IF ~AllSmall(x.data \o y.data) \/ (inv /\ \E k \in 1..Len(y.data) : y.data[k] = RZero) THEN Open
  ELSE LET dims == Union(x, y)
           Op(a, b) == IF inv THEN RMul(a, RInv(b)) ELSE RMul(a, b)
           r == ByName(Op, x, y, dims)
       IN Must(Array(dims, r.shape, r.data, IF inv THEN x.e10 - y.e10 ELSE x.e10 + y.e10,
                     UTimes(x.unit, IF inv THEN UPower(y.unit, <<-1, 1>>) ELSE y.unit)))
SameSet(x, y) == {x.dims[k] : k \in 1..Len(x.dims)} = {y.dims[k] : k \in 1..Len(y.dims)}
AddSub(x, y, neg) ==
  IF Canonical(x.unit) # Canonical(y.unit) THEN Refuse
  ELSE IF ~SameSet(x, y) THEN Refuse
  ELSE IF ~Agree(x, y) THEN (IF \E k \in 1..Len(x.dims) : x.shape[k] # Size(y, x.dims[k]) /\ 1 \in {x.shape[k], Size(y, x.dims[k])}
                             THEN Open ELSE Refuse)
  ELSE IF x.e10 # y.e10 \/ ~AllSmall(x.data \o y.data) THEN Open
  ELSE LET Op(a, b) == RAdd(a, IF neg THEN RMul(<<-1, 1>>, b) ELSE b)
           r == ByName(Op, x, y, x.dims)
           z == Array(x.dims, r.shape, r.data, x.e10, x.unit)
       IN IF x.dims = y.dims THEN Must(z) ELSE May(z)
Scaled(x, q) == IF ~AllSmall(x.data) THEN Open ELSE Must([x EXCEPT !.data = [k \in 1..Len(x.data) |-> RMul(x.data[k], q)]])

(* ---- functions of one array --------------------------------------------------- *)
IsSquare(n) == \E k \in 0..150 : k * k = n
Root(n) == CHOOSE k \in 0..150 : k * k = n
RootR(q) == <<Root(q[1]), Root(q[2])>>
Map(x, F(_)) == [x EXCEPT !.data = [k \in 1..Len(x.data) |-> F(x.data[k])]]
NonZero(x) == \A k \in 1..Len(x.data) : x.data[k] # RZero
Unary(f, x) ==
  IF ~AllSmall(x.data) THEN Open ELSE
  CASE f = "neg" -> Must(Map(x, LAMBDA q : RMul(<<-1, 1>>, q)))
    [] f = "pos" -> Must(x)
    [] f = "abs" -> Must(Map(x, LAMBDA q : <<Abs(q[1]), q[2]>>))
    [] f = "square" -> IF \A k \in 1..Len(x.data) : Abs(x.data[k][1]) < 140 /\ x.data[k][2] < 140
         THEN Must([Map(x, LAMBDA q : RMul(q, q)) EXCEPT !.unit = UPower(x.unit, <<2, 1>>), !.e10 = 2 * x.e10]) ELSE Open
    [] f = "reciprocal" -> IF NonZero(x)
         THEN Must([Map(x, LAMBDA q : RInv(q)) EXCEPT !.unit = UPower(x.unit, <<-1, 1>>), !.e10 = -x.e10]) ELSE Open
    [] f = "sqrt" -> IF x.e10 % 2 = 0 /\ \A k \in 1..Len(x.data) : x.data[k][1] > 0 /\ IsSquare(x.data[k][1]) /\ IsSquare(x.data[k][2])
         THEN Must([Map(x, LAMBDA q : RootR(q)) EXCEPT !.unit = UPower(x.unit, <<1, 2>>), !.e10 = x.e10 \div 2]) ELSE Open
    [] f = "sign" -> Must([Map(x, LAMBDA q : <<IF q[1] < 0 THEN -1 ELSE IF q[1] > 0 THEN 1 ELSE 0, 1>>) EXCEPT !.unit = <<>>, !.e10 = 0])
(* functions whose numbers are computed outside: the argument and the unit of the result *)
Transcendental(x, f) == Must([x EXCEPT !.unit = <<>>])
Power(x, n, d) ==
  IF <<n, d>> = <<2, 1>> THEN Unary("square", x)
  ELSE IF <<n, d>> = <<-1, 1>> THEN Unary("reciprocal", x)
  ELSE IF <<n, d>> = <<1, 2>> THEN Unary("sqrt", x)
  ELSE IF <<n, d>> = <<1, 1>> THEN Must(x) ELSE Open

(* ---- reductions: drop the axes with 0-based positions in axes --------------------- *)
Norm(axes, n) == {Pos(axes[j], n) + 1 : j \in 1..Len(axes)}
KeptAxes(n, A) == SelectSeq([k \in 1..n |-> k], LAMBDA k : k \notin A)
Fibre(x, A, c, kept) ==     \* the numbers over which position c of the kept axes is reduced
  LET ps == SelectSeq([p \in 1..Len(x.data) |-> p], LAMBDA p : \A j \in 1..Len(kept) : Coords(p, x.shape)[kept[j]] = c[j])
  IN [j \in 1..Len(ps) |-> x.data[ps[j]]]
MaxR(s) == FoldLeft(LAMBDA acc, q : IF RLess(acc, q) THEN q ELSE acc, s[1], s)
MinR(s) == FoldLeft(LAMBDA acc, q : IF RLess(q, acc) THEN q ELSE acc, s[1], s)
Reduced(f, s) == CASE f = "sum" -> SumR(s)
                   [] f = "mean" -> RMul(SumR(s), <<1, Len(s)>>)
                   [] f = "max" -> MaxR(s)
                   [] f = "min" -> MinR(s)
Reduce(f, x, axes, all, keep) ==
  LET n == Len(x.shape)
      A == IF all THEN 1..n ELSE Norm(axes, n)
      kept == KeptAxes(n, A)
      shape == [j \in 1..Len(kept) |-> x.shape[kept[j]]]
      dims == [j \in 1..Len(kept) |-> x.dims[kept[j]]]
  IN IF ~all /\ \E j \in 1..Len(axes) : ~InRange(axes[j], n) THEN (IF n = 0 THEN Open ELSE Refuse)
     ELSE IF Prod(x.shape) = 0 \/ ~AllSmall(x.data) THEN Open
     ELSE LET data == [p \in 1..Prod(shape) |-> Reduced(f, Fibre(x, A, Coords(p, shape), kept))]
          IN IF keep THEN Must([x EXCEPT !.shape = [k \in 1..n |-> IF k \in A THEN 1 ELSE x.shape[k]], !.data = data])
             ELSE Must([x EXCEPT !.shape = shape, !.dims = dims, !.data = data])
Squeeze(x, axes, all) ==
  LET n == Len(x.shape)
      A == IF all THEN {k \in 1..n : x.shape[k] = 1} ELSE Norm(axes, n)
      kept == KeptAxes(n, A)
  IN IF ~all /\ (\E j \in 1..Len(axes) : ~InRange(axes[j], n)) THEN (IF n = 0 THEN Open ELSE Refuse)
     ELSE IF \E k \in A : x.shape[k] # 1 THEN Refuse
     ELSE Must([x EXCEPT !.shape = [j \in 1..Len(kept) |-> x.shape[kept[j]]],
                         !.dims = [j \in 1..Len(kept) |-> x.dims[kept[j]]]])

(* ---- unit conversion: one length symbol to another -------------------------------- *)
Convert(x, from, to) ==
  LET e == Expo(x.unit, from) IN
  IF e[2] # 1 THEN Open
  ELSE Must([x EXCEPT !.unit = UTimes(x.unit, <<<<from, -e[1], 1>>, <<to, e[1], 1>>>>),
                      !.e10 = @ + e[1] * (Length10[from] - Length10[to])])

(* ---- equality: the same axes, lengths, numbers and unit ---------------------------- *)
(* Not judged if the same numbers come with different powers of ten, since one of the   *)
(* arrays may then have been rounded; two writings of one unit are one unit.             *)
Lengths == DOMAIN Length10
Tenfold(u) == FoldLeft(LAMBDA acc, t : IF t[1] \in Lengths THEN RAdd(acc, RMul(<<Length10[t[1]], 1>>, <<t[2], t[3]>>)) ELSE acc, RZero, u)
AsMetres(u) == Canonical([k \in 1..Len(u) |-> IF u[k][1] \in Lengths THEN <<"m", u[k][2], u[k][3]>> ELSE u[k]])
OneUnit(u, v) == AsMetres(u) = AsMetres(v) /\ Tenfold(u) = Tenfold(v)
Equal(x, y) ==
  IF x.dims # y.dims \/ x.shape # y.shape \/ ~OneUnit(x.unit, y.unit) THEN [tag |-> "must", bool |-> FALSE]
  ELSE IF x.e10 # y.e10 THEN Open
  ELSE [tag |-> "must", bool |-> x.data = y.data]

(* ---- programs ---------------------------------------------------------------------- *)
Step(regs, o) ==
  LET x == regs[o.a] IN
  CASE o.op = "select" -> IF Selectable(x, o.ix) THEN Must(Select(x, o.ix)) ELSE Refuse
    [] o.op = "convert" -> Convert(x, o.from, o.to)
    [] o.op = "read" -> Must(x)
    [] o.op = "copy" -> Must(x)
    [] o.op = "eq" -> Equal(x, regs[o.b])
    [] o.op = "mul" -> Bounded(Multiply(x, regs[o.b], FALSE))
    [] o.op = "div" -> Bounded(Multiply(x, regs[o.b], TRUE))
    [] o.op = "add" -> Bounded(AddSub(x, regs[o.b], FALSE))
    [] o.op = "sub" -> Bounded(AddSub(x, regs[o.b], TRUE))
    [] o.op = "scale" -> Bounded(Scaled(x, o.q))
    [] o.op = "un" -> Bounded(Unary(o.f, x))
    [] o.op = "pow" -> Bounded(Power(x, o.q[1], o.q[2]))
    [] o.op = "trans" -> Transcendental(x, o.f)
    [] o.op = "reduce" -> Bounded(Reduce(o.f, x, o.axes, o.all, o.keep))
    [] o.op = "squeeze" -> Squeeze(x, o.axes, o.all)
RECURSIVE Run(_, _, _)
Run(regs, ops, k) ==
  IF k > Len(ops) THEN <<>>
  ELSE LET r == Step(regs, ops[k])
           kept == r.tag = "must" /\ ops[k].dst > 0
       IN <<r>> \o Run(IF kept THEN [regs EXCEPT ![ops[k].dst] = r.x] ELSE regs, ops, k + 1)
=============================================================================
