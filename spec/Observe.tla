------------------------------ MODULE Observe ------------------------------
(* What an observation is.  A dataset d has sizes d.N and coordinates (scaled  *)
(* to integers) d.time[t], d.mu[m], d.energy[p][e], d.radius[t][s].  A request *)
(* r observes the product of powers r.what = <<[q, e]...>> (e rational) under   *)
(* constraints r.time, r.shell, r.species, r.energy, r.mu: each [k |-> "all"], *)
(* [k |-> "at", at |-> positions from 0] or [k |-> "val", ts |-> targets], and  *)
(* r.radius: "all" or "val" with one target; r.m is the minimum energy.         *)
EXTENDS Formulas, Interpolate
Low(d, r) == [p \in 1..d.N.species |-> Cardinality({e \in 1..d.N.energy : d.energy[p][e] <= r.m})]
Whats(r) == {r.what[i].q : i \in DOMAIN r.what}
RAxes(r) == UNION {AxisSet(q) : q \in Whats(r)}
RParams(r) == UNION {Params(q) : q \in Whats(r)}
IsCoordinate(r) == /\ Len(r.what) = 1 /\ r.what[1].q \in Coordinates /\ r.what[1].e = ROne
Radial(r) == r.radius.k = "val" /\ "shell" \in RAxes(r) /\ ~IsCoordinate(r)
Con5(r, a) == CASE a = "time" -> r.time [] a = "shell" -> r.shell [] a = "species" -> r.species
                [] a = "energy" -> r.energy [] a = "mu" -> r.mu [] OTHER -> [k |-> "at", at |-> <<0>>]
Extent(d, r, a) ==
  IF a = "minimum energy" THEN 1
  ELSE IF a = "shell" /\ Radial(r) THEN 1
  ELSE LET c == Con5(r, a) IN CASE c.k = "all" -> d.N[a] [] c.k = "at" -> Len(c.at) [] c.k = "val" -> Len(c.ts)
(* positions count from the start, or from the end if negative *)
Place(d, a, i) == IF i < 0 THEN d.N[a] + i + 1 ELSE i + 1
InRange(d, a, i) == Place(d, a, i) \in 1..d.N[a]
Grid(d, a, p) == CASE a = "time" -> d.time [] a = "mu" -> d.mu [] a = "energy" -> d.energy[p]
(* the weighted grid positions of the k-th observed position of axis a, for    *)
(* species p at time t                                                         *)
Whole(i) == <<<<ROne, i>>>>
Linear(g, t) == LET x == Interp(g, t)
                IN IF x.lo = x.hi THEN Whole(x.lo) ELSE <<<<RSub(ROne, x.w), x.lo>>, <<x.w, x.hi>>>>
Spread(d, r, a, k, p, t) ==
  IF a = "shell" /\ Radial(r) THEN Linear(d.radius[t], r.radius.ts[1])
  ELSE LET c == Con5(r, a) IN
    CASE c.k = "all" -> Whole(k)
      [] c.k = "at" -> Whole(Place(d, a, c.at[k]))
      [] c.k = "val" -> IF IsCoordinate(r) THEN Whole(CHOOSE i \in Nearest(Grid(d, a, p), c.ts[k], "none") : TRUE)
                        ELSE Linear(Grid(d, a, p), c.ts[k])
(* requests outside the specification: targets outside a grid, ties, and       *)
(* energies of several species at once where the nearest point matters         *)
Judged(d, r) ==
  /\ \A a \in RAxes(r) \ {"minimum energy"} : LET c == Con5(r, a) IN
       CASE c.k = "all" -> TRUE
         [] c.k = "at" -> \A i \in DOMAIN c.at : InRange(d, a, c.at[i])
         [] c.k = "val" -> \A i \in DOMAIN c.ts : \A p \in (IF a = "energy" THEN 1..d.N.species ELSE {1}) :
              /\ Strict(Grid(d, a, p)) /\ Inside(Grid(d, a, p), c.ts[i])
              /\ Cardinality(Nearest(Grid(d, a, p), c.ts[i], "none")) = 1
  /\ IsCoordinate(r) => r.energy.k # "val" \/ Extent(d, r, "species") = 1
  /\ Radial(r) => /\ "time" \in RAxes(r) /\ r.shell.k = "all"
                  /\ \A t \in 1..d.N.time : Strict(d.radius[t]) /\ Inside(d.radius[t], r.radius.ts[1])
  (* no slope can be taken along an axis of one point *)
  /\ Whats(r) \cap {"edensity", "eaverage"} # {} => d.N.energy > 1
  /\ "divv" \in Whats(r) => d.N.time > 1
  (* at a grid energy, rounding decides which interval comes first *)
  /\ "intflux" \in Whats(r) => \A p \in 1..d.N.species : Low(d, r)[p] < d.N.energy /\ ~ \E e \in 1..d.N.energy : d.energy[p][e] = r.m

Power(t, e) == IF e = ROne THEN t ELSE Pow(t, Num(e[1], e[2]))
At(d, r, p) == LET f(i) == Power(Term(r.what[i].q, p, d.N, Low(d, r)), r.what[i].e)
               IN IF Len(r.what) = 1 THEN f(1) ELSE Prod([i \in DOMAIN r.what |-> f(i)])
(* the value at observed position o (a record over the axes, from 1)           *)
Weighed(s, F(_)) == IF Len(s) = 1 THEN F(s[1][2])
                    ELSE Sum([i \in DOMAIN s |-> Prod(<<Num(s[i][1][1], s[i][1][2]), F(s[i][2])>>)])
Origin == [time |-> 1, shell |-> 1, species |-> 1, energy |-> 1, mu |-> 1]
Value(d, r, o) ==
  LET X == RAxes(r)
      S(a, p, t) == IF a \in X THEN Spread(d, r, a, o[a], p, t) ELSE Whole(1)
      p == S("species", 1, 1)[1][2]
      FT(t) == LET FS(s) == LET FE(e) == LET FM(m) == At(d, r, [time |-> t, shell |-> s, species |-> p, energy |-> e, mu |-> m])
                                         IN Weighed(S("mu", p, t), FM)
                            IN Weighed(S("energy", p, t), FE)
               IN Weighed(S("shell", p, t), FS)
  IN Weighed(S("time", p, 1), FT)

(* reported coordinates of an axis: grid positions or target values *)
Report(d, r, a) ==
  LET c == Con5(r, a) IN
  CASE c.k = "all" -> [k |-> "at", at |-> [i \in 1..d.N[a] |-> i]]
    [] c.k = "at" -> [k |-> "at", at |-> [i \in DOMAIN c.at |-> Place(d, a, c.at[i])]]
    [] c.k = "val" -> [k |-> "val", at |-> c.ts]
RDims(r) == LET f[i \in 0..Len(r.what)] ==
                  IF i = 0 THEN [x \in {"l", "m", "t", "q", "r", "s"} |-> RZero]
                  ELSE [x \in DOMAIN f[i - 1] |-> RAdd(f[i - 1][x], RMul(r.what[i].e, RInt(Dims(r.what[i].q)[x])))]
            IN f[Len(r.what)]
Shape(d, r) == LET x == Ordered(RAxes(r)) IN [i \in DOMAIN x |-> Extent(d, r, x[i])]
(* any numbers choose an observed position *)
Wrapped(d, r, o) == [a \in DOMAIN o |-> IF a \in RAxes(r) THEN 1 + (o[a] % Extent(d, r, a)) ELSE 1]
Observation(d, r, os) ==
  IF ~Judged(d, r) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, axes |-> Ordered(RAxes(r)), shape |-> Shape(d, r),
        params |-> RParams(r), dims |-> RDims(r),
        report |-> [a \in RAxes(r) \ {"minimum energy"} |-> Report(d, r, a)],
        at |-> [i \in DOMAIN os |-> Wrapped(d, r, os[i])],
        terms |-> [i \in DOMAIN os |-> Value(d, r, Wrapped(d, r, os[i]))]]
=============================================================================
