----------------------------- MODULE ArrayModel -----------------------------
(* Laws of array arithmetic over every pair of arrays with at most two named   *)
(* axes of length at most 2 (numbers fixed by position).                        *)
EXTENDS Arrays
CONSTANT Names
DimSeqs == {<<>>} \cup {<<a>> : a \in Names} \cup {<<p[1], p[2]>> : p \in {q \in Names \X Names : q[1] # q[2]}}
Lens == [Names -> 1..2]
Mk(dims, lens, base) == LET shape == [k \in 1..Len(dims) |-> lens[dims[k]]]
  IN Array(dims, shape, [p \in 1..Prod(shape) |-> <<base + p, 1>>], 0, IF base = 0 THEN <<<<"m", 1, 1>>>> ELSE <<<<"s", 1, 1>>>>)
VARIABLES x, y
Init == \E lens \in Lens : \E a, b \in DimSeqs : x = Mk(a, lens, 0) /\ y = Mk(b, lens, 3)
Next == UNCHANGED <<x, y>>
ValueAt(z, c) == z.data[FlatPos([k \in 1..Len(z.dims) |-> c[z.dims[k]]], z.shape)]
Grid(z) == {c \in [Names -> 1..2] : \A k \in 1..Len(z.dims) : c[z.dims[k]] <= z.shape[k]}
Laws ==
  LET p == Multiply(x, y, FALSE).x  q == Multiply(y, x, FALSE).x  d == Multiply(p, y, TRUE).x IN
  /\ \A c \in Grid(p) : ValueAt(p, c) = RMul(ValueAt(x, c), ValueAt(y, c))
  /\ \A c \in Grid(p) : ValueAt(p, c) = ValueAt(q, c)           \* commutes, up to the order of axes
  /\ Canonical(p.unit) = Canonical(q.unit)
  /\ \A c \in Grid(d) : ValueAt(d, c) = ValueAt(x, c)           \* division undoes multiplication
  /\ Canonical(d.unit) = Canonical(x.unit)
  /\ AddSub(x, y, FALSE).tag = "refuse"                          \* different units
  /\ AddSub(x, x, TRUE).x.data = [k \in 1..Len(x.data) |-> RZero]
  /\ Unary("sqrt", Unary("square", x).x).x.data = x.data
  /\ Unary("reciprocal", Unary("reciprocal", x).x).x = [x EXCEPT !.unit = Canonical(x.unit)]
  /\ \A k \in 1..Len(x.dims) :
       LET r == Reduce("mean", x, <<k - 1>>, FALSE, FALSE).x s == Reduce("sum", x, <<k - 1>>, FALSE, TRUE).x IN
       /\ Len(r.dims) = Len(x.dims) - 1 /\ r.unit = x.unit
       /\ s.dims = x.dims
       /\ Squeeze(s, <<k - 1>>, FALSE).x.dims = r.dims
       /\ \A j \in 1..Len(r.data) : RMul(r.data[j], <<x.shape[k], 1>>) = s.data[j]
=============================================================================
