---------------------------- MODULE MeasureTable ----------------------------
(* Every input tree within the bounds, with its laws checked and its reading  *)
(* printed for replay on the real code.                                        *)
EXTENDS Measuring
CONSTANTS W0, W1, W2
Atoms == {Num(0), U("m"), U("s"), U("1"), [k |-> "none"], [k |-> "thing", vs |-> <<0, 0>>, u |-> "m"]}
Lists(S, n) == {Seq_(s) : s \in UNION {[1..m -> S] : m \in 0..n}}
L1 == Lists(Atoms, W0)
Few == {Num(0), U("m"), U("s")}
L2 == Lists(Few \cup {[k |-> "thing", vs |-> <<0>>, u |-> "m"]} \cup Lists(Few, W1), W2)
L3 == Lists({Num(0), U("m")} \cup Lists({Num(0), U("m")} \cup Lists({Num(0), U("m")}, 2), 2), 2)
Trees == Atoms \cup L1 \cup L2 \cup L3
VARIABLE t
Init == t \in Trees
Next == UNCHANGED t
RECURSIVE HasNum(_)
HasNum(x) == CASE x.k = "num" -> TRUE
               [] x.k = "thing" -> TRUE
               [] x.k = "seq" -> \E j \in 1..Len(x.s) : HasNum(x.s[j])
               [] OTHER -> FALSE
RECURSIVE Size(_)
Size(x) == CASE x.k = "num" -> 1
             [] x.k = "thing" -> Len(x.vs)
             [] x.k = "seq" -> FoldLeft(LAMBDA acc, y : acc + Size(y), 0, x.s)
             [] OTHER -> 0
Laws == LET m == Measured(t) IN
  /\ ~HasNum(t) => m.w = "no"
  /\ m.w # "no" => Len(m.vs) = Size(t)                      \* no number is lost
  /\ Measured(Seq_(<<t>>)) = m                              \* redundant nesting has no meaning
  /\ m.w = "yes" => Measured(Seq_(<<t, t>>)).w = "yes"      \* repeating a measurement is one
  /\ m.w # "yes" => Measured(Seq_(<<t, t>>)).w # "yes"
Emit == PrintT("@@" \o ToJson([t |-> t, m |-> Measured(t)]))
Inv == Laws /\ Emit
=============================================================================
