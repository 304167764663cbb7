----------------------------- MODULE LookupCases -----------------------------
EXTENDS Lookup, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Judge(c) ==
  CASE c.k = "table" -> [req |-> [j \in 1..Len(c.reqs) |-> Request(c.rows, c.reqs[j].ps, c.reqs[j].strict)],
                         find |-> [j \in 1..Len(c.vals) |-> Find(c.rows, c.vals[j])], common |-> Common(c.rows)]
    [] c.k = "registry" -> [ok |-> RegRun([items |-> c.init, init |-> c.init, bad |-> FALSE], c.events, 1)]
    [] c.k = "graph" -> [c |-> FoldLeft(LAMBDA acc, e : Connect(acc, e[1], e[2], e[3]), {}, c.events)]
    [] c.k = "unique" -> [r |-> Unique(c.s)]
    [] c.k = "unwrap" -> [r |-> Unwrap(c.t)]
    [] c.k = "transpose" -> [r |-> Transpose(c.m)]
    [] c.k = "slice" -> [r |-> Slice(c.n, c.start, c.stop, c.step)]
    [] c.k = "product" -> [r |-> Product(c.a, c.b)]
    [] c.k = "show" -> [r |-> AtMost(c.n, c.s)]
    [] c.k = "hastype" -> [r |-> HasType(c.o, SetOf(c.types), SetOf(c.wraps), c.strict)]
    [] c.k = "missing" -> [r |-> Missing(c.o)]
    [] c.k = "whole" -> [r |-> Members(c.o)]
    [] c.k = "same members" -> [r |-> SameMembers(Members(c.a), Members(c.b))]
    [] c.k = "uniform" -> [r |-> Uniform(c.row, c.fields)]
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
