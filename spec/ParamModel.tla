----------------------------- MODULE ParamModel -----------------------------
(* All histories of path changes over a small world: two sources and three     *)
(* configurations.  Emits every transition; the laws of resolution hold in     *)
(* every state.                                                                *)
EXTENDS Params
N(i) == [op |-> "num", id |-> i]
R(n) == [op |-> "par", name |-> n]
K(n) == [op |-> "const", name |-> n]
Two(o, a, b) == [op |-> o, x |-> a, y |-> b]
P(n, d) == [name |-> n, key |-> n, type |-> "float", default |-> d]
World ==
 [sources |-> <<
   [params |-> << P("start", N("0.5")), P("step", N("0.25")),
                  P("stop", Two("add", R("start"), R("step"))),
                  P("late", Two("sub", R("stop"), R("start"))),
                  P("size", Two("mul", N("2.0"), K("SCALE"))) >>,
    consts |-> << [name |-> "SCALE", def |-> N("8.0")] >>],
   [params |-> << P("start", N("1.5")), P("step", R("start")),
                  P("stop", Two("add", R("step"), R("start"))),
                  P("extra", Two("div", K("SCALE"), R("step"))) >>,
    consts |-> << [name |-> "SCALE", def |-> Two("div", K("BASE"), N("2.0"))],
                  [name |-> "BASE", def |-> N("3.0")] >>] >>,
  configs |-> << << [name |-> "start", def |-> N("4.0")] >>,
                 << [name |-> "step", def |-> Two("mul", N("3.0"), R("start"))],
                    [name |-> "stop", def |-> R("step")] >>,
                 << [name |-> "start", def |-> Two("sub", R("step"), N("0.25"))],
                    [name |-> "size", def |-> Two("div", K("SCALE"), N("16.0"))] >> >>]
Names == {"start", "step", "stop", "late", "size", "extra"}
VARIABLES st, last
Init == st = [src |-> 1, cfg |-> 0] /\ last = [do |-> "none"]
Ops == {[do |-> "config", to |-> c] : c \in 0..3} \cup {[do |-> "source", to |-> s] : s \in 1..2}
       \cup {[do |-> "look", name |-> n] : n \in Names} \cup {[do |-> "names"]}
Next == \E o \in Ops :
  LET r == Do(World, st, o) IN
  /\ st' = r.st /\ last' = [do |-> "none"]
  /\ PrintT("@@" \o ToJson([s |-> st, a |-> [o |-> o, res |-> r.res], t |-> r.st]))

Src == Source(World, st)
Usr == User(World, st)
Laws == \A n \in Names : Has(Src.params, n) =>
  LET v == Resolve(Src, Usr, n)
      deps == Reach(Src, Usr, {n})
      cut == SelectSeq(Usr, LAMBDA r : r.name \in deps)
  IN /\ Resolve(Src, cut, n) = v                   \* only what it refers to matters
     /\ (Has(Usr, n) => v = Close(Src, Usr, Row(Usr, n).def, {n}))
     /\ (v # Bad /\ ~Has(Usr, n) /\ Row(Src.params, n).default.op = "par"
           => v = Resolve(Src, Usr, Row(Src.params, n).default.name))
ASSUME PrintT("@@" \o ToJson([world |-> World]))
=============================================================================
